From d2030d9851aab0a6f85facd681b0e6e9b14a7430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 01/45] fix: measure Booksim time in NoC cycles, not
 picoseconds

Router, credit and channel delays other than one cycle hit an assertion or
were ignored, and the int overflowed after 2.147 ms of simulated time, after
which the network stopped moving.
---
 rad-sim/sim/noc/radsim_noc.cpp |  4 +++-
 rad-sim/sim/radsim_utils.cpp   | 11 +++++++----
 rad-sim/sim/radsim_utils.hpp   |  5 +++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/rad-sim/sim/noc/radsim_noc.cpp b/rad-sim/sim/noc/radsim_noc.cpp
index 4bd974f..0d8dd9f 100644
--- a/rad-sim/sim/noc/radsim_noc.cpp
+++ b/rad-sim/sim/noc/radsim_noc.cpp
@@ -300,9 +300,11 @@ map<int, int> *radsim_noc::GetEjectedFlitsMap() { return _ejected_flits; }
 
 void radsim_noc::Tick() {
   // Reset Code
+  int noc_cycle = 0;
   wait();
 
   while (true) {
+    SetSimTime(noc_cycle++);
     _booksim_noc->ReadInputs();
     for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
       map<int, int>::const_iterator iter = _ejected_flits->find(node_id);
@@ -315,7 +317,7 @@ void radsim_noc::Tick() {
     _ejected_flits->clear();
     _booksim_noc->Evaluate();
     _booksim_noc->WriteOutputs();
-    _booksim_noc->Trace(NoCFlitTelemetry::ostream, double(GetSimTime()) / 1000);
+    _booksim_noc->Trace(NoCFlitTelemetry::ostream, sc_time_stamp().to_double() / 1000);
     wait();
   }
 }
\ No newline at end of file
diff --git a/rad-sim/sim/radsim_utils.cpp b/rad-sim/sim/radsim_utils.cpp
index 497ed21..7100a83 100644
--- a/rad-sim/sim/radsim_utils.cpp
+++ b/rad-sim/sim/radsim_utils.cpp
@@ -13,10 +13,13 @@ int GetSimulationCycle() {
   return cycle;
 }
 
-int GetSimTime() { 
-  sc_time t = sc_time_stamp();
-  return t.value();
-}
+// Booksim measures all router, credit and channel delays in NoC cycles, so its
+// notion of time is the cycle count of the NoC that is currently evaluated.
+static int noc_cycle = 0;
+
+void SetSimTime(int cycle) { noc_cycle = cycle; }
+
+int GetSimTime() { return noc_cycle; }
 
 int CalculateXYGridHops(unsigned int src, unsigned int dest, unsigned int grid_dimension) {
   int grid_size = grid_dimension * grid_dimension;
diff --git a/rad-sim/sim/radsim_utils.hpp b/rad-sim/sim/radsim_utils.hpp
index 32e11bc..5faf51e 100644
--- a/rad-sim/sim/radsim_utils.hpp
+++ b/rad-sim/sim/radsim_utils.hpp
@@ -20,8 +20,9 @@ int GetSimulationCycle(double period);
 
 int GetSimulationCycle();
 
-// Returns the current simulation cycle number given the NoC clock period
-// int GetSimTime();
+// Sets the current simulation cycle number of the NoC under evaluation, which is
+// what Booksim's GetSimTime() returns
+void SetSimTime(int cycle);
 
 // Calculates the number of hops between source and destination nodes in a 2D
 // grid of certain dimension in case of minimal XY routing
-- 
2.43.0


From 77a470097ee81af1c15fcecd3299a5d3609dbe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 02/45] fix: let requests enter router allocation while older
 ones are in flight

With vc_alloc_delay or sw_alloc_delay above one, a request queued behind one
that was already being processed was never considered and hit an assertion.
---
 rad-sim/sim/noc/booksim/routers/iq_router.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/routers/iq_router.cpp b/rad-sim/sim/noc/booksim/routers/iq_router.cpp
index 2f66207..06caf2b 100644
--- a/rad-sim/sim/noc/booksim/routers/iq_router.cpp
+++ b/rad-sim/sim/noc/booksim/routers/iq_router.cpp
@@ -471,7 +471,7 @@ void IQRouter::_RouteEvaluate( )
     
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _routing_delay - 1;
     
@@ -565,7 +565,7 @@ void IQRouter::_VCAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
 
     int const input = iter->second.first.first;
@@ -714,7 +714,7 @@ void IQRouter::_VCAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _vc_alloc_delay - 1;
 
@@ -1337,7 +1337,7 @@ void IQRouter::_SWAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
 
     int const input = iter->second.first.first;
@@ -1503,7 +1503,7 @@ void IQRouter::_SWAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _sw_alloc_delay - 1;
 
@@ -2145,7 +2145,7 @@ void IQRouter::_SwitchEvaluate( )
     
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _crossbar_delay - 1;
 
-- 
2.43.0


From 469545c50c3c63f7570d40f4891b595e0c39569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 03/45] fix: return every credit of a node that drains several
 flits per NoC cycle

The pending credits were kept in a map with one entry per node, so that a
second flit drained between two NoC clock edges lost its credit for good.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp |  2 +-
 rad-sim/sim/noc/aximm_master_adapter.hpp |  4 ++--
 rad-sim/sim/noc/aximm_slave_adapter.cpp  |  2 +-
 rad-sim/sim/noc/aximm_slave_adapter.hpp  |  4 ++--
 rad-sim/sim/noc/axis_master_adapter.cpp  |  2 +-
 rad-sim/sim/noc/axis_master_adapter.hpp  |  4 ++--
 rad-sim/sim/noc/radsim_noc.cpp           | 11 ++++++-----
 rad-sim/sim/noc/radsim_noc.hpp           |  6 +++---
 8 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 200ef3a..7ab68e4 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -4,7 +4,7 @@ aximm_master_adapter::aximm_master_adapter(
     const sc_module_name &name, unsigned int rad_id, int node_id, int network_id,
     BookSimConfig *noc_config, Network *noc, BufferState *buffer_state,
     tRoutingFunction routing_func, bool lookahead_routing,
-    bool wait_for_tail_credit, map<int, int> *ejected_flits,
+    bool wait_for_tail_credit, multimap<int, int> *ejected_flits,
     unsigned int interface_dataw, double node_period, double adapter_period)
     : sc_module(name) {
 
diff --git a/rad-sim/sim/noc/aximm_master_adapter.hpp b/rad-sim/sim/noc/aximm_master_adapter.hpp
index 6e7547a..d9f3cb4 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.hpp
@@ -35,7 +35,7 @@ private:
   tRoutingFunction _routing_func;
   bool _lookahead_routing;
   bool _wait_for_tail_credit;
-  map<int, int> *_ejected_flits;
+  multimap<int, int> *_ejected_flits;
 
   // Request Interface variables
   Flit *_ejected_booksim_flit;
@@ -89,7 +89,7 @@ public:
                        BookSimConfig *noc_config, Network *noc,
                        BufferState *buffer_state, tRoutingFunction routing_func,
                        bool lookahead_routing, bool wait_for_tail_credit,
-                       map<int, int> *ejected_flits,
+                       multimap<int, int> *ejected_flits,
                        unsigned int interface_dataw, double node_period,
                        double adapter_period);
   ~aximm_master_adapter();
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 03738c8..c4674a1 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -6,7 +6,7 @@ aximm_slave_adapter::aximm_slave_adapter(
     const sc_module_name &name, unsigned int rad_id, int node_id, int network_id,
     BookSimConfig *noc_config, Network *noc, BufferState *buffer_state,
     tRoutingFunction routing_func, bool lookahead_routing,
-    bool wait_for_tail_credit, map<int, int> *ejected_flits,
+    bool wait_for_tail_credit, multimap<int, int> *ejected_flits,
     unsigned int interface_dataw, double node_period, double adapter_period)
     : sc_module(name) {
 
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.hpp b/rad-sim/sim/noc/aximm_slave_adapter.hpp
index 7d05d8d..c1d951b 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.hpp
@@ -70,7 +70,7 @@ private:
   tRoutingFunction _routing_func;
   bool _lookahead_routing;
   bool _wait_for_tail_credit;
-  map<int, int> *_ejected_flits;
+  multimap<int, int> *_ejected_flits;
 
   /* Request interface signals for storing selected input request transaction
    * based on the following table:
@@ -170,7 +170,7 @@ public:
                       BookSimConfig *noc_config, Network *noc,
                       BufferState *buffer_state, tRoutingFunction routing_func,
                       bool lookahead_routing, bool wait_for_tail_credit,
-                      map<int, int> *ejected_flits,
+                      multimap<int, int> *ejected_flits,
                       unsigned int interface_dataw, double node_period,
                       double adapter_period);
   ~aximm_slave_adapter() override;
diff --git a/rad-sim/sim/noc/axis_master_adapter.cpp b/rad-sim/sim/noc/axis_master_adapter.cpp
index 26bd400..5f9118d 100644
--- a/rad-sim/sim/noc/axis_master_adapter.cpp
+++ b/rad-sim/sim/noc/axis_master_adapter.cpp
@@ -6,7 +6,7 @@ axis_master_adapter::axis_master_adapter(
     std::vector<unsigned int> &interface_dataw, BookSimConfig *noc_config,
     Network *noc, BufferState *buffer_state, tRoutingFunction routing_func,
     bool lookahead_routing, bool wait_for_tail_credit,
-    map<int, int> *ejected_flits)
+    multimap<int, int> *ejected_flits)
     : sc_module(name) {
   _rad_id = rad_id;
   _node_id = node_id;
diff --git a/rad-sim/sim/noc/axis_master_adapter.hpp b/rad-sim/sim/noc/axis_master_adapter.hpp
index 38d81ba..ac36a0c 100644
--- a/rad-sim/sim/noc/axis_master_adapter.hpp
+++ b/rad-sim/sim/noc/axis_master_adapter.hpp
@@ -30,7 +30,7 @@ private:
   tRoutingFunction _routing_func;
   bool _lookahead_routing;
   bool _wait_for_tail_credit;
-  map<int, int> *_ejected_flits;
+  multimap<int, int> *_ejected_flits;
 
   Flit *_ejected_booksim_flit;
   unsigned int _ejection_afifo_depth;
@@ -59,7 +59,7 @@ public:
                       BookSimConfig *noc_config, Network *noc,
                       BufferState *buffer_state, tRoutingFunction routing_func,
                       bool lookahead_routing, bool wait_for_tail_credit,
-                      map<int, int> *ejected_flits);
+                      multimap<int, int> *ejected_flits);
   ~axis_master_adapter();
 
   void write_sc_packet_to_axis_output(sc_packet &packet,
diff --git a/rad-sim/sim/noc/radsim_noc.cpp b/rad-sim/sim/noc/radsim_noc.cpp
index 0d8dd9f..69d72d7 100644
--- a/rad-sim/sim/noc/radsim_noc.cpp
+++ b/rad-sim/sim/noc/radsim_noc.cpp
@@ -38,7 +38,7 @@ radsim_noc::radsim_noc(const sc_module_name &name, unsigned int rad_id, std::str
   _wait_for_tail_credit = _config.GetInt("wait_for_tail_credit");
 
   // Create ejected flits map and buffer states for all routers in all subnets
-  _ejected_flits = new map<int, int>();
+  _ejected_flits = new multimap<int, int>();
   _buffer_state.resize(_num_noc_nodes);
   for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
     std::ostringstream tmp_name;
@@ -296,7 +296,7 @@ BufferState *radsim_noc::GetBufferState(int node) {
   return _buffer_state[node];
 }
 
-map<int, int> *radsim_noc::GetEjectedFlitsMap() { return _ejected_flits; }
+multimap<int, int> *radsim_noc::GetEjectedFlitsMap() { return _ejected_flits; }
 
 void radsim_noc::Tick() {
   // Reset Code
@@ -307,14 +307,15 @@ void radsim_noc::Tick() {
     SetSimTime(noc_cycle++);
     _booksim_noc->ReadInputs();
     for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
-      map<int, int>::const_iterator iter = _ejected_flits->find(node_id);
-      if (iter != _ejected_flits->end()) {
+      // A node returns one credit per NoC cycle, the others stay pending
+      multimap<int, int>::iterator iter = _ejected_flits->lower_bound(node_id);
+      if (iter != _ejected_flits->end() && iter->first == node_id) {
         Credit *const c = Credit::New();
         c->vc.insert(iter->second);
         _booksim_noc->WriteCredit(c, node_id);
+        _ejected_flits->erase(iter);
       }
     }
-    _ejected_flits->clear();
     _booksim_noc->Evaluate();
     _booksim_noc->WriteOutputs();
     _booksim_noc->Trace(NoCFlitTelemetry::ostream, sc_time_stamp().to_double() / 1000);
diff --git a/rad-sim/sim/noc/radsim_noc.hpp b/rad-sim/sim/noc/radsim_noc.hpp
index b6328b9..d84b1a2 100644
--- a/rad-sim/sim/noc/radsim_noc.hpp
+++ b/rad-sim/sim/noc/radsim_noc.hpp
@@ -30,8 +30,8 @@ private:
   bool _lookahead_routing;                  // Is lookahead routing used?
   bool _wait_for_tail_credit;               // Do we wait for tail credit?
   std::vector<BufferState *> _buffer_state; // Vector of buffer state pointers
-  std::map<int, int>
-      *_ejected_flits; // Ejected flit map <node, virtual channel>
+  std::multimap<int, int>
+      *_ejected_flits; // Ejected flits whose credits are pending <node, virtual channel>
 
   unsigned int _num_axis_slave_endpoints, _num_axis_master_endpoints;
   unsigned int _num_aximm_slave_endpoints, _num_aximm_master_endpoints;
@@ -65,7 +65,7 @@ public:
   bool IsLookaheadRouting() const;
   bool IsWaitForTailCredit() const;
   BufferState *GetBufferState(int node);
-  map<int, int> *GetEjectedFlitsMap();
+  multimap<int, int> *GetEjectedFlitsMap();
 
   void Tick();
   SC_HAS_PROCESS(radsim_noc);
-- 
2.43.0


From b4f549431969a57f3b3ce57c3a009fc3c1c37c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 04/45] fix: do not lose ejected flits when an adapter FIFO is
 smaller than a VC buffer

The NoC presents an ejected flit for one cycle; the adapter stopped reading
while the FIFO was full although credits allow vc_buf_size flits per VC.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 5 ++++-
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 5 ++++-
 rad-sim/sim/noc/axis_master_adapter.cpp  | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 7ab68e4..f7b351a 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -26,8 +26,11 @@ aximm_master_adapter::aximm_master_adapter(
   _ejected_flits = ejected_flits;
 
   // Initialize request interface (AR, AW, W) member variables
+  // Credits let the NoC send up to vc_buf_size flits per VC and each of them is
+  // presented for one cycle only, so the FIFO must have space for all of them
   _ejection_afifo_depth =
-      radsim_config.GetIntVectorKnobPerRad("noc_adapters_fifo_size", _network_id, _rad_id);
+      std::max(radsim_config.GetIntVectorKnobPerRad("noc_adapters_fifo_size", _network_id, _rad_id),
+               _noc_config->GetInt("vc_buf_size") * _noc_config->GetInt("num_vcs"));
   _ejection_afifos.resize(AXI_NUM_REQ_TYPES);
   _ejection_afifo_push_counter.init(AXI_NUM_REQ_TYPES);
   _ejection_afifo_pop_counter.init(AXI_NUM_REQ_TYPES);
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index c4674a1..7acb823 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -61,8 +61,11 @@ aximm_slave_adapter::aximm_slave_adapter(
 
   // Initialize response interface (B, R) member variables
   _ejected_booksim_flit = nullptr;
+  // Credits let the NoC send up to vc_buf_size flits per VC and each of them is
+  // presented for one cycle only, so the FIFO must have space for all of them
   _ejection_afifo_depth =
-      radsim_config.GetIntVectorKnobPerRad("noc_adapters_fifo_size", _network_id, _rad_id);
+      std::max(radsim_config.GetIntVectorKnobPerRad("noc_adapters_fifo_size", _network_id, _rad_id),
+               _noc_config->GetInt("vc_buf_size") * _noc_config->GetInt("num_vcs"));
   _ejection_afifos.resize(AXI_NUM_RSP_TYPES);
   _ejection_afifo_push_counter.init(AXI_NUM_RSP_TYPES);
   _ejection_afifo_pop_counter.init(AXI_NUM_RSP_TYPES);
diff --git a/rad-sim/sim/noc/axis_master_adapter.cpp b/rad-sim/sim/noc/axis_master_adapter.cpp
index 5f9118d..b627b0e 100644
--- a/rad-sim/sim/noc/axis_master_adapter.cpp
+++ b/rad-sim/sim/noc/axis_master_adapter.cpp
@@ -33,8 +33,11 @@ axis_master_adapter::axis_master_adapter(
   _ejected_flits = ejected_flits;
 
   _ejected_booksim_flit = nullptr;
+  // Credits let the NoC send up to vc_buf_size flits per VC and each of them is
+  // presented for one cycle only, so the FIFO must have space for all of them
   _ejection_afifo_depth =
-      radsim_config.GetIntVectorKnobPerRad("noc_adapters_fifo_size", _network_id, _rad_id);
+      std::max(radsim_config.GetIntVectorKnobPerRad("noc_adapters_fifo_size", _network_id, _rad_id),
+               _noc_config->GetInt("vc_buf_size"));
   _ejection_afifos.resize(_num_vcs);
   _ejection_afifo_push_counter.init(_num_vcs);
   _ejection_afifo_pop_counter.init(_num_vcs);
-- 
2.43.0


From 185d556c1b8e29c4bacec2aa0c0c145aa00d6dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 05/45] fix: size the node count lists of config.py for every
 NoC

---
 rad-sim/config.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index f2395b5..1c26c31 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -97,7 +97,11 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
         curr_config_name = cluster_knobs["cluster_configs"][config_idx] #retrieve the config num by rad ID
         curr_config_num = config_names.index(curr_config_name)
         print('generate_booksim_config_files fn ' + curr_config_name + ' ' + str(curr_config_num))
-        for noc_idx in range(booksim_params[curr_config_num]["noc_num_nocs"]):
+        num_nocs = booksim_params[curr_config_num]["noc_num_nocs"]
+        #one entry per NoC, the sizes of mesh and torus NoCs are filled in below
+        for num_nodes in (radsim_header_params["noc_num_nodes"], radsim_knobs[curr_config_num]["noc_num_nodes"]):
+            num_nodes += [0] * (num_nocs - len(num_nodes))
+        for noc_idx in range(num_nocs):
             booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(curr_config_num) + "_config", "w")
 
             # Booksim topology configuration
-- 
2.43.0


From 24078827bb1528f2348e4c570547f87680861162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 06/45] fix: compute the inter-RAD bandwidth fraction with the
 right denominator

---
 rad-sim/config.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 1c26c31..9f20c30 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -318,17 +318,12 @@ def generate_radsim_params_header(radsim_header_params):
 def get_fraction(input_val):
     '''Returns tuple, where first value is numerator and second is denom'''
     print(input_val)
-    remainder = float('{:,.3f}'.format(input_val % 1)) #choosing to keep only 3 dec places. need to do this bc python stores floats as binary fraction
-    if remainder == 0: #whole number
-        return (int(input_val), 1)
-    else:
-        count = 0
-        while (remainder % 1 != 0):
-            remainder *= 10
-            count += 1
-        b = count * 10
-        a = (( input_val-(input_val%1) ) * b) + remainder
-        return (int(a), b)
+    b = 1000 #choosing to keep only 3 dec places
+    a = int(round(input_val * b))
+    while b > 1 and a % 10 == 0:
+        a //= 10
+        b //= 10
+    return (a, b)
 
 
 def generate_radsim_config_file(radsim_knobs, cluster_knobs):
-- 
2.43.0


From 8d0d80413aebd5e0982f898be6cbef9a5dd20718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 07/45] fix: generate each RAD's files from the configuration
 cluster_configs names for it

---
 rad-sim/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 9f20c30..b005c21 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -102,7 +102,7 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
         for num_nodes in (radsim_header_params["noc_num_nodes"], radsim_knobs[curr_config_num]["noc_num_nodes"]):
             num_nodes += [0] * (num_nocs - len(num_nodes))
         for noc_idx in range(num_nocs):
-            booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(curr_config_num) + "_config", "w")
+            booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(config_idx) + "_config", "w") #radsim_noc looks files up by RAD ID
 
             # Booksim topology configuration
             booksim_config_file.write("// Topology\n")
@@ -331,7 +331,7 @@ def generate_radsim_config_file(radsim_knobs, cluster_knobs):
     for config_id in range(len(cluster_knobs["cluster_configs"])):
         curr_config_name = cluster_knobs["cluster_configs"][config_id] #retrieve the config num by rad ID
         curr_config_num = config_names.index(curr_config_name)
-        for param in radsim_knobs[config_id]:
+        for param in radsim_knobs[curr_config_num]:
             radsim_config_file.write(param + " " + str(config_id) + " ") # second element is RAD ID
             if isinstance(radsim_knobs[curr_config_num][param], list):
                 for value in radsim_knobs[curr_config_num][param]:
@@ -396,7 +396,7 @@ def generate_radsim_main(design_names, radsim_knobs):
     main_cpp_file.write("\tint num_traces = radsim_config.GetIntKnobShared(\"telemetry_num_traces\");\n")
     main_cpp_file.write("\tsim_trace_probe.SetTraceRecordingSettings(\"sim.trace\", num_traces);\n\n")
     for i in range(cluster_knobs["num_rads"]):
-        design_name = radsim_knobs[i]["design_name"]
+        design_name = radsim_knobs[config_names.index(cluster_knobs["cluster_configs"][i])]["design_name"]
         main_cpp_file.write("\tsc_clock *driver_clk_sig" + str(i) + " = new sc_clock(\n")
         main_cpp_file.write("\t\t\"node_clk0\", radsim_config.GetDoubleKnobShared(\"sim_driver_period\"), SC_NS);\n")
         main_cpp_file.write("\t" + design_name + "_system *system" + str(i) + " = new " + design_name + "_system(\"" 
-- 
2.43.0


From bfb90ad57e9d2a1c147e61b3d58eb399fc32effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 08/45] fix: look up the node count of anynet NoCs where it is
 stored

---
 rad-sim/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index b005c21..dc74c62 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -150,7 +150,7 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
             elif noc_topology == "anynet":
                 booksim_config_file.write("topology = anynet;\n")
                 booksim_config_file.write("network_file = " + booksim_params[curr_config_num]["noc_anynet_file"][noc_idx] + ";\n")
-                if radsim_header_params[curr_config_num]["noc_num_nodes"][noc_idx] == 0:
+                if radsim_header_params["noc_num_nodes"][noc_idx] == 0:
                     print("Config Error: Number of nodes parameter missing for anynet NoC topologies!")
                     exit(1)
 
-- 
2.43.0


From 949f6815852ca1a17053fb453691dac37c3ad533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 09/45] fix: AXI-MM requests were delivered with burst, size
 and len taken from the user field

The master adapter extracted AxBURST/AxSIZE/AxLEN from the low bits of the
whole reassembled packet instead of from its control field.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index f7b351a..785c148 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -281,13 +281,13 @@ void aximm_master_adapter::OutputInterface() {
       sc_bv<AXI4_CTRLW> ctrl_temp = AXI4_CTRL(temp_bv);
       unsigned int offset = 0;
       aximm_interface.arburst.write(
-          temp_bv.range(offset + AXI4_BURSTW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_BURSTW - 1, offset).to_uint());
       offset += AXI4_BURSTW;
       aximm_interface.arsize.write(
-          temp_bv.range(offset + AXI4_SIZEW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_SIZEW - 1, offset).to_uint());
       offset += AXI4_SIZEW;
       aximm_interface.arlen.write(
-          temp_bv.range(offset + AXI4_LENW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
@@ -318,13 +318,13 @@ void aximm_master_adapter::OutputInterface() {
       sc_bv<AXI4_CTRLW> ctrl_temp = AXI4_CTRL(temp_bv);
       unsigned int offset = 0;
       aximm_interface.awburst.write(
-          temp_bv.range(offset + AXI4_BURSTW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_BURSTW - 1, offset).to_uint());
       offset += AXI4_BURSTW;
       aximm_interface.awsize.write(
-          temp_bv.range(offset + AXI4_SIZEW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_SIZEW - 1, offset).to_uint());
       offset += AXI4_SIZEW;
       aximm_interface.awlen.write(
-          temp_bv.range(offset + AXI4_LENW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
-- 
2.43.0


From 82bf7c4249e7b01ba7269aa02fe89065274b5fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 10/45] fix: AXI-MM adapters repeated packets when the clock
 ratio is not an integer

With the ratio rounded down, packetization ended while the captured beat was
still registered and it was packetized again; with a ratio below 2 and a
one-flit packet the packetization counter had to wrap before ending.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 2 +-
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 785c148..97fdeeb 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -58,7 +58,7 @@ aximm_master_adapter::aximm_master_adapter(
   }
   _max_flits_per_transaction =
       (int)ceil(_axi_transaction_width / NOC_LINKS_PAYLOAD_WIDTH);
-  _freq_ratio = (int)floor(_node_period / _adapter_period);
+  _freq_ratio = (int)ceil(_node_period / _adapter_period);
   _rready = false;
   _bready = false;
   _injection_flit_ready = false;
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 7acb823..6d0aa31 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -39,7 +39,7 @@ aximm_slave_adapter::aximm_slave_adapter(
   }
   _max_flits_per_transaction =
       (int)ceil(_axi_transaction_width / NOC_LINKS_PAYLOAD_WIDTH);
-  _freq_ratio = (int)floor(_node_period / _adapter_period);
+  _freq_ratio = (int)ceil(_node_period / _adapter_period);
   _arready = false;
   _awready = false;
   _wready = false;
-- 
2.43.0


From 250e07df94596774ce1e4e18ec301a33fda9451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 11/45] fix: AXI-MM address and response packets could be one
 flit short

The control, address and response fields sit above the LAST and RESP bits of
the packet, which the flit count left out; when it made the difference the
top bits of the address or of the response were cut off.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 2 +-
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 97fdeeb..8905b70 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -494,7 +494,7 @@ void aximm_master_adapter::InputPacketization() {
         unsigned int num_flits = 0;
         if (_i_type.read() == AXI_TYPE_B) {
 
-          num_flits = (unsigned int)(ceil((AXI4_RESPW + AXI4_USERW) * 1.0 /
+          num_flits = (unsigned int)(ceil((AXI4_RESPW + AXI4_USERW + 1) * 1.0 /
                                           NOC_LINKS_PAYLOAD_WIDTH));
           AXI4_USER(packet_bv) = _i_user.read();
           AXI4_RESP(packet_bv) = _i_resp.read();
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 6d0aa31..9a3dc72 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -296,7 +296,8 @@ void aximm_slave_adapter::InputPacketization() {
             (_i_type.read() == AXI_TYPE_AW)) {
 
           num_flits =
-              (unsigned int)(ceil((AXI4_ADDRW + AXI4_CTRLW + AXI4_USERW) * 1.0 /
+              (unsigned int)(ceil((AXI4_ADDRW + AXI4_CTRLW + AXI4_RESPW +
+                                   AXI4_USERW + 1) * 1.0 /
                                   NOC_LINKS_PAYLOAD_WIDTH));
           AXI4_USER(packet_bv) = _i_user.read();
           AXI4_CTRL(packet_bv) = _i_ctrl.read();
-- 
2.43.0


From 9e95369eff2a6b2cc10b542b0e76f8ad8c52a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 12/45] fix: a second AXI-MM write address redirected the rest
 of the first write's data

Write data follows the destination of the last accepted address, so the slave
adapter must not take another write address before the last beat of the burst
in progress.
---
 rad-sim/sim/noc/aximm_slave_adapter.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 9a3dc72..a304114 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -51,7 +51,8 @@ aximm_slave_adapter::aximm_slave_adapter(
   SC_METHOD(InputReady);
   sensitive << _injection_afifo_full << aximm_interface.arvalid
             << aximm_interface.awvalid << aximm_interface.wvalid
-            << _injection_priority_setting << _packetization_cycle << rst;
+            << _injection_priority_setting << _packetization_cycle << _got_aw
+            << rst;
   SC_CTHREAD(InputInjection, noc_clk.pos());
   reset_signal_is(rst, true);
   SC_CTHREAD(InputPacketization, adapter_clk.pos());
@@ -105,13 +106,14 @@ void aximm_slave_adapter::InputReady() {
     if (_injection_priority_setting.read() == 0) {
       _arready = !_injection_afifo_full && aximm_interface.arvalid.read();
       flag = _arready;
-      _awready =
-          !_injection_afifo_full && !flag && aximm_interface.awvalid.read();
+      _awready = !_injection_afifo_full && !flag &&
+                 aximm_interface.awvalid.read() && !_got_aw.read();
       flag |= _awready;
       _wready = !_injection_afifo_full && !flag &&
                 aximm_interface.wvalid.read() && _got_aw.read();
     } else if (_injection_priority_setting.read() == 1) {
-      _awready = !_injection_afifo_full && aximm_interface.awvalid.read();
+      _awready = !_injection_afifo_full && aximm_interface.awvalid.read() &&
+                 !_got_aw.read();
       flag = _awready;
       _wready = !_injection_afifo_full && !flag &&
                 aximm_interface.wvalid.read() && _got_aw.read();
@@ -125,8 +127,8 @@ void aximm_slave_adapter::InputReady() {
       _arready =
           !_injection_afifo_full && !flag && aximm_interface.arvalid.read();
       flag |= _arready;
-      _awready =
-          !_injection_afifo_full && !flag && aximm_interface.awvalid.read();
+      _awready = !_injection_afifo_full && !flag &&
+                 aximm_interface.awvalid.read() && !_got_aw.read();
     }
 
     // Verify that at most one ready signal is asserted based on the current
-- 
2.43.0


From e1b95db2e2ff8f9691603666427bffc06abcb2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 13/45] fix: write responses carried the tag of an earlier
 write

---
 rad-sim/sim/dram/mem_controller.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index efe1f4b..4ab7442 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -463,6 +463,9 @@ void mem_controller::Tick() {
                                        0);
       mem_channels[ch_id].rvalid.write(_output_read_responses[ch_id].size() >
                                        0);
+      if (_output_write_responses[ch_id].size() > 0) {
+        mem_channels[ch_id].buser.write(_output_write_responses[ch_id].front());
+      }
       if (_output_read_responses[ch_id].size() > 0) {
         mem_channels[ch_id].rdata.write(
             std::get<1>(_output_read_responses[ch_id].front()));
@@ -611,10 +614,6 @@ void mem_controller::Assign() {
           write_output_queue_ok);
       mem_channels[ch_id].arready.write(read_input_queue_ok &&
                                         read_output_queue_ok);
-
-      if (_output_write_responses[ch_id].size() > 0) {
-        mem_channels[ch_id].buser.write(_output_write_responses[ch_id].front());
-      }
     }
   }
 }
-- 
2.43.0


From 947a06ca18a9f21bf071777d448ae46b4ce03988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 14/45] fix: memory controller dropped requests it had said it
 was ready for

---
 rad-sim/sim/dram/mem_controller.cpp | 30 +++++++++--------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index 4ab7442..0633712 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -374,24 +374,10 @@ void mem_controller::Tick() {
 
   while (true) {
     for (unsigned int ch_id = 0; ch_id < _num_channels; ch_id++) {
-      bool rd_iqueue_ok = _read_address_queue[ch_id].size() < _input_queue_size;
-      bool rd_oqueue_ok =
-          (_outstanding_read_requests[ch_id].size() +
-           _output_read_responses[ch_id].size()) < _output_queue_size;
-      bool wr_oqueue_ok =
-          (_outstanding_write_requests[ch_id].size() +
-           _output_write_responses[ch_id].size()) < _output_queue_size;
-
-      bool awready_flag =
-          _write_address_queue_occupancy[ch_id] < _input_queue_size;
-      bool wready_flag =
-          _write_address_queue_occupancy[ch_id] > 0 &&
-          _write_data_queue_occupancy[ch_id] < _input_queue_size &&
-          wr_oqueue_ok;
-      bool arready_flag = rd_iqueue_ok && rd_oqueue_ok;
-
+      // Requests are one-cycle pulses sent by the adapter after it saw ready, so
+      // each of them has to be accepted even if the queues filled up meanwhile
       // Accepting write address requests
-      if (mem_channels[ch_id].awvalid.read() && awready_flag) {
+      if (mem_channels[ch_id].awvalid.read()) {
         unsigned int transaction_size_in_bytes =
             (1 << mem_channels[ch_id].awsize.read().to_uint());
         unsigned int transaction_size = (unsigned int)ceil(
@@ -411,7 +397,7 @@ void mem_controller::Tick() {
       _write_address_queue_occupancy[ch_id].write(
           _write_address_queue[ch_id].size());
       // Accepting write data requests
-      if (mem_channels[ch_id].wvalid.read() && wready_flag) {
+      if (mem_channels[ch_id].wvalid.read()) {
         uint64_t resp_addr = mem_channels[ch_id].wuser.read().to_uint64();
         sc_bv<AXI4_MAX_DATAW> write_data = mem_channels[ch_id].wdata.read();
         _write_data_queue[ch_id].push(std::make_pair(resp_addr, write_data));
@@ -419,7 +405,7 @@ void mem_controller::Tick() {
       }
       _write_data_queue_occupancy[ch_id].write(_write_data_queue[ch_id].size());
       // Accepting read address requests
-      if (mem_channels[ch_id].arvalid.read() && arready_flag) {
+      if (mem_channels[ch_id].arvalid.read()) {
         uint64_t resp_addr = mem_channels[ch_id].aruser.read().to_uint64();
         unsigned int transaction_size_in_bytes =
             (1 << mem_channels[ch_id].arsize.read().to_uint());
@@ -525,7 +511,8 @@ void mem_controller::MemTick() {
                 std::make_tuple(read_addr, resp_addr, last));
           }
           // Issue write request to DRAMsim
-        } else if (_write_data_queue[ch_id].size() > 0) {
+        } else if (_write_data_queue[ch_id].size() > 0 &&
+                   _write_address_queue[ch_id].size() > 0) {
           uint64_t resp_addr = _write_data_queue[ch_id].front().first;
           uint64_t write_addr = _write_address_queue[ch_id].front().first;
           bool last = _write_address_queue[ch_id].front().second;
@@ -549,7 +536,8 @@ void mem_controller::MemTick() {
     } else {
       for (unsigned int ch_id = 0; ch_id < _num_channels; ch_id++) {
         // Issue write request to DRAMsim
-        if (_write_data_queue[ch_id].size() > 0) {
+        if (_write_data_queue[ch_id].size() > 0 &&
+            _write_address_queue[ch_id].size() > 0) {
           uint64_t resp_addr = _write_data_queue[ch_id].front().first;
           uint64_t write_addr = _write_address_queue[ch_id].front().first;
           bool last = _write_address_queue[ch_id].front().second;
-- 
2.43.0


From f0c18841d831a130e66d0d555dafc458a230dd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 15/45] fix: reads and full write buffers of DRAMsim3 blocked
 each other forever

---
 rad-sim/sim/dram/DRAMsim3/src/controller.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index a582dcc..83759c1 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -215,6 +215,19 @@ void Controller::ScheduleTransaction() {
                 // Enforce R->W dependency
                 if (pending_rd_q_.count(it->addr) > 0) {
                     write_draining_ = 0;
+                    // A full write buffer starts draining again in the next
+                    // cycle, so the read has to be scheduled in this one
+                    for (auto rd = read_queue_.begin(); rd != read_queue_.end();
+                         rd++) {
+                        auto rd_cmd = TransToCommand(*rd);
+                        if (cmd_queue_.WillAcceptCommand(rd_cmd.Rank(),
+                                                         rd_cmd.Bankgroup(),
+                                                         rd_cmd.Bank())) {
+                            cmd_queue_.AddCommand(rd_cmd);
+                            read_queue_.erase(rd);
+                            break;
+                        }
+                    }
                     break;
                 }
                 write_draining_ -= 1;
-- 
2.43.0


From cd946cebe4236d79d59648b0e38fc03cb36a551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 16/45] fix: a DRAM bank could be activated while its per-bank
 refresh was in progress

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 735ba85..6c31b2e 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -222,7 +222,7 @@ Timing::Timing(const Config& config)
     }
 
     // command REFRESH_BANK
-    same_rank[static_cast<int>(CommandType::REFRESH_BANK)] =
+    same_bank[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, refresh_to_activate_bank},
             {CommandType::REFRESH, refresh_to_activate_bank},
-- 
2.43.0


From 4a482f86b8492a628cacfb47952b9df6262a2180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 17/45] fix: per-bank refresh of different banks was limited to
 the all-bank refresh rate

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 6c31b2e..6a2f700 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -51,8 +51,6 @@ Timing::Timing(const Config& config)
         config.tRC;  // need to precharge before ref, so it's tRC
 
     // TODO: deal with different refresh rate
-    int refresh_to_refresh =
-        config.tREFI;  // refresh intervals (per rank level)
     int refresh_to_activate = config.tRFC;  // tRFC is defined as ref to act
     int refresh_to_activate_bank = config.tRFCb;
 
@@ -231,14 +229,14 @@ Timing::Timing(const Config& config)
 
     other_banks_same_bankgroup[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
-            {CommandType::ACTIVATE, refresh_to_activate},
-            {CommandType::REFRESH_BANK, refresh_to_refresh},
+            {CommandType::ACTIVATE, refresh_to_activate_bank},
+            {CommandType::REFRESH_BANK, refresh_to_activate_bank},
         };
 
     other_bankgroups_same_rank[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
-            {CommandType::ACTIVATE, refresh_to_activate},
-            {CommandType::REFRESH_BANK, refresh_to_refresh},
+            {CommandType::ACTIVATE, refresh_to_activate_bank},
+            {CommandType::REFRESH_BANK, refresh_to_activate_bank},
         };
 
     // REFRESH, SREF_ENTER and SREF_EXIT are isued to the entire
-- 
2.43.0


From c98d5127f38697f9e2fec55504412e5ac0221266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 18/45] fix: write data that overtook its address blocked the
 AXI-MM target adapter forever

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 96 +++++++++++++-----------
 rad-sim/sim/noc/aximm_master_adapter.hpp |  5 +-
 2 files changed, 56 insertions(+), 45 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 8905b70..eed2c54 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -37,6 +37,8 @@ aximm_master_adapter::aximm_master_adapter(
   for (int i = 0; i < AXI_NUM_REQ_TYPES; i++) {
     _ejection_afifo_priority.push(i);
   }
+  _output_afifos.resize(AXI_NUM_REQ_TYPES);
+  _output_afifo_priority = 0;
   _ejected_booksim_flit = nullptr;
 
   // Request pipeline modules described as SystemC methods and threads
@@ -171,7 +173,8 @@ void aximm_master_adapter::OutputDepacketization() {
     unsigned int highest_priority_fifo_id = _ejection_afifo_priority.front();
     bool fifo_has_complete_packet =
         _ejection_afifo_push_counter[highest_priority_fifo_id].read() >
-        _ejection_afifo_pop_counter[highest_priority_fifo_id].read();
+            _ejection_afifo_pop_counter[highest_priority_fifo_id].read() &&
+        _output_afifos[highest_priority_fifo_id].size() < 2;
 
     // If no ejection FIFO is currently being depacketized
     if (!_ejection_afifo_is_depacketizing.read()) {
@@ -190,50 +193,46 @@ void aximm_master_adapter::OutputDepacketization() {
         highest_priority_fifo_id = _ejection_afifo_priority.front();
         fifo_has_complete_packet =
             _ejection_afifo_push_counter[highest_priority_fifo_id].read() >
-            _ejection_afifo_pop_counter[highest_priority_fifo_id].read();
+                _ejection_afifo_pop_counter[highest_priority_fifo_id].read() &&
+            _output_afifos[highest_priority_fifo_id].size() < 2;
       }
     }
 
-    // If there is a complete packet, set depacketization flag and start
+    // If there is a complete packet and the output double buffer (FIFO of size
+    // 2) of its type has free space, set depacketization flag and start
     // processing it
     if (fifo_has_complete_packet) {
-      // If output double buffer (FIFO of size 2) has free space, depacketize
-      // flits
-      if (_output_afifo.size() < 2) {
-        // Pop a flit from the highest priority ejection FIFO
-        sc_flit processed_flit =
-            _ejection_afifos[highest_priority_fifo_id].front();
-        _ejection_afifos[highest_priority_fifo_id].pop();
-        _constructed_packet.AddFlit(processed_flit);
-
-        // Write credit for the accepted flit to the corresponding VC
-        _ejected_flits->insert(
-            make_pair(_node_id, processed_flit._vc_id.to_uint()));
-
-        // If the flit is a tail, push constructed packet to output double
-        // buffer & reset depacketization flag
-        if (processed_flit._tail) {
-          _output_afifo.push(_constructed_packet);
-          NoCTransactionTelemetry::RecordTransactionTailDepacketization(
-              processed_flit._sim_transaction_id);
-          _constructed_packet.Reset();
-          _ejection_afifo_is_depacketizing.write(false);
-
-          // Update FIFO packet pop counter
-          int updated_count =
-              _ejection_afifo_pop_counter[highest_priority_fifo_id].read() + 1;
-          _ejection_afifo_pop_counter[highest_priority_fifo_id].write(
-              updated_count);
-          assert(updated_count <=
-                 _ejection_afifo_push_counter[highest_priority_fifo_id]);
-
-          // Adjust ejection FIFOs priority status
-          _ejection_afifo_priority.push(_ejection_afifo_priority.front());
-          _ejection_afifo_priority.pop();
-          // std::cout << this->name() << ": Depacketized packet!" << std::endl;
-        } else {
-          _ejection_afifo_is_depacketizing.write(true);
-        }
+      // Pop a flit from the highest priority ejection FIFO
+      sc_flit processed_flit =
+          _ejection_afifos[highest_priority_fifo_id].front();
+      _ejection_afifos[highest_priority_fifo_id].pop();
+      _constructed_packet.AddFlit(processed_flit);
+
+      // Write credit for the accepted flit to the corresponding VC
+      _ejected_flits->insert(
+          make_pair(_node_id, processed_flit._vc_id.to_uint()));
+
+      // If the flit is a tail, push constructed packet to output double
+      // buffer & reset depacketization flag
+      if (processed_flit._tail) {
+        _output_afifos[highest_priority_fifo_id].push(_constructed_packet);
+        NoCTransactionTelemetry::RecordTransactionTailDepacketization(
+            processed_flit._sim_transaction_id);
+        _constructed_packet.Reset();
+        _ejection_afifo_is_depacketizing.write(false);
+
+        // Update FIFO packet pop counter
+        int updated_count =
+            _ejection_afifo_pop_counter[highest_priority_fifo_id].read() + 1;
+        _ejection_afifo_pop_counter[highest_priority_fifo_id].write(
+            updated_count);
+        assert(updated_count <=
+               _ejection_afifo_push_counter[highest_priority_fifo_id]);
+
+        // Adjust ejection FIFOs priority status
+        _ejection_afifo_priority.push(_ejection_afifo_priority.front());
+        _ejection_afifo_priority.pop();
+        // std::cout << this->name() << ": Depacketized packet!" << std::endl;
       } else {
         _ejection_afifo_is_depacketizing.write(true);
       }
@@ -251,10 +250,19 @@ void aximm_master_adapter::OutputInterface() {
   wait();
 
   while (true) {
-    if (!_output_afifo.empty() > 0 && !_output_packet_ready) {
-      _output_packet = _output_afifo.front();
-      _output_afifo.pop();
-      _output_packet_ready = true;
+    // Pick a packet whose channel is ready, round-robin over request types
+    bool channel_ready[AXI_NUM_REQ_TYPES] = {aximm_interface.arready.read(),
+                                             aximm_interface.awready.read(),
+                                             aximm_interface.wready.read()};
+    for (unsigned int i = 0; i < AXI_NUM_REQ_TYPES && !_output_packet_ready;
+         i++) {
+      unsigned int type_id = (_output_afifo_priority + i) % AXI_NUM_REQ_TYPES;
+      if (!_output_afifos[type_id].empty() && channel_ready[type_id]) {
+        _output_packet = _output_afifos[type_id].front();
+        _output_afifos[type_id].pop();
+        _output_packet_ready = true;
+        _output_afifo_priority = (type_id + 1) % AXI_NUM_REQ_TYPES;
+      }
     }
     if (_output_packet_ready &&
         (_output_packet.GetFlit(0)->_type == Flit::FlitType::READ_REQUEST) &&
diff --git a/rad-sim/sim/noc/aximm_master_adapter.hpp b/rad-sim/sim/noc/aximm_master_adapter.hpp
index d9f3cb4..79cc0f0 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.hpp
@@ -46,7 +46,10 @@ private:
   std::queue<unsigned int> _ejection_afifo_priority;
   sc_signal<bool> _ejection_afifo_is_depacketizing;
 
-  std::queue<sc_packet> _output_afifo;
+  // One output FIFO per request type, since a stalled type (e.g. write data
+  // ahead of its address) must not block the others
+  std::vector<std::queue<sc_packet>> _output_afifos;
+  unsigned int _output_afifo_priority;
   sc_packet _constructed_packet, _output_packet;
   bool _output_packet_ready;
 
-- 
2.43.0


From 4c0c1e8dadbefd0d647e315f5d71ca6c32e5db8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 19/45] fix: a rank could be refreshed before tRC of its last
 activate had passed

Only the other banks' per-bank refresh was held off by an activate. With
auto-precharge the refresh of the activated bank itself was issued as soon
as the column command allowed, before tRAS + tRP.
---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 6a2f700..4f1232b 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -186,6 +186,9 @@ Timing::Timing(const Config& config)
             {CommandType::READ_PRECHARGE, activate_to_read},
             {CommandType::WRITE_PRECHARGE, activate_to_write},
             {CommandType::PRECHARGE, activate_to_precharge},
+            {CommandType::REFRESH, activate_to_refresh},
+            {CommandType::REFRESH_BANK, activate_to_refresh},
+            {CommandType::SREF_ENTER, activate_to_refresh},
         };
 
     other_banks_same_bankgroup[static_cast<int>(CommandType::ACTIVATE)] =
-- 
2.43.0


From e1a166c3a19bb86fe2e8f950eaeb0bd3463df42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 20/45] fix: RANK_LEVEL_SIMULTANEOUS refreshed only the first
 rank

---
 rad-sim/sim/dram/DRAMsim3/src/refresh.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
index 31cbc9f..4b9fa4b 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
@@ -33,7 +33,6 @@ void Refresh::InsertRefresh() {
             for (auto i = 0; i < config_.ranks; i++) {
                 if (!channel_state_.IsRankSelfRefreshing(i)) {
                     channel_state_.RankNeedRefresh(i, true);
-                    break;
                 }
             }
             break;
-- 
2.43.0


From 8937fd269e2b16d6584d6435a1168e93012c2cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 21/45] fix: waking a rank from self refresh aborted the
 simulation

---
 rad-sim/sim/dram/DRAMsim3/src/bankstate.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc b/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
index 46aa511..b6cc22c 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
@@ -70,6 +70,7 @@ Command BankState::GetReadyCommand(const Command& cmd, uint64_t clk) const {
                 case CommandType::READ_PRECHARGE:
                 case CommandType::WRITE:
                 case CommandType::WRITE_PRECHARGE:
+                case CommandType::SREF_EXIT:
                     required_type = CommandType::SREF_EXIT;
                     break;
                 default:
-- 
2.43.0


From 5470445d0dafd5fdf9c336a086e78ed7619bbaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 22/45] fix: activates of other banks held back per-bank
 refresh without limit

Every activate in a rank postponed the refresh of all its other banks by
tRC, so a steady stream of activates starved it. A refresh of one bank only
has to keep the activate spacing to activates of other banks.
---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 4f1232b..a4153d3 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -194,12 +194,12 @@ Timing::Timing(const Config& config)
     other_banks_same_bankgroup[static_cast<int>(CommandType::ACTIVATE)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, activate_to_activate_l},
-            {CommandType::REFRESH_BANK, activate_to_refresh}};
+            {CommandType::REFRESH_BANK, activate_to_activate_l}};
 
     other_bankgroups_same_rank[static_cast<int>(CommandType::ACTIVATE)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, activate_to_activate_s},
-            {CommandType::REFRESH_BANK, activate_to_refresh}};
+            {CommandType::REFRESH_BANK, activate_to_activate_s}};
 
     // command PRECHARGE
     same_bank[static_cast<int>(CommandType::PRECHARGE)] =
-- 
2.43.0


From 8e6ad9cbc8066c1a615c71fd19086343f28f5685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 23/45] fix: a second column command found for an HBM cycle was
 lost

GetCommandToIssue took the read or write out of its queue even when the
controller then did not issue it because the first command of the cycle was
also a column command (to another rank).
---
 rad-sim/sim/dram/DRAMsim3/src/command_queue.cc | 3 ---
 rad-sim/sim/dram/DRAMsim3/src/command_queue.h  | 2 +-
 rad-sim/sim/dram/DRAMsim3/src/controller.cc    | 5 ++++-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc b/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
index f121d28..db276e9 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
@@ -44,9 +44,6 @@ Command CommandQueue::GetCommandToIssue() {
         }
         auto cmd = GetFirstReadyInQueue(queue);
         if (cmd.IsValid()) {
-            if (cmd.IsReadWrite()) {
-                EraseRWCommand(cmd);
-            }
             return cmd;
         }
     }
diff --git a/rad-sim/sim/dram/DRAMsim3/src/command_queue.h b/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
index 5bc8d3f..9aa78c8 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
+++ b/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
@@ -20,6 +20,7 @@ class CommandQueue {
                  const ChannelState& channel_state, SimpleStats& simple_stats);
     Command GetCommandToIssue();
     Command FinishRefresh();
+    void EraseRWCommand(const Command& cmd);
     void ClockTick() { clk_ += 1; };
     bool WillAcceptCommand(int rank, int bankgroup, int bank) const;
     bool AddCommand(Command cmd);
@@ -37,7 +38,6 @@ class CommandQueue {
     CMDQueue& GetQueue(int rank, int bankgroup, int bank);
     CMDQueue& GetNextQueue();
     void GetRefQIndices(const Command& ref);
-    void EraseRWCommand(const Command& cmd);
     Command PrepRefCmd(const CMDIterator& it, const Command& ref) const;
 
     QueueStructure queue_structure_;
diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index 83759c1..28da5fa 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -247,7 +247,10 @@ void Controller::IssueCommand(const Command &cmd) {
     // add channel in, only needed by thermal module
     thermal_calc_.UpdateCMDPower(channel_id_, cmd, clk_);
 #endif  // THERMAL
-    // if read/write, update pending queue and return queue
+    // if read/write, update command, pending and return queue
+    if (cmd.IsReadWrite()) {
+        cmd_queue_.EraseRWCommand(cmd);
+    }
     if (cmd.IsRead()) {
         auto num_reads = pending_rd_q_.count(cmd.hex_addr);
         if (num_reads == 0) {
-- 
2.43.0


From 35cf89b134b814f0ed016905b42479f1da15822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 24/45] fix: a memory read could be starved forever by other
 traffic

A read could wait without limit behind row hits and behind streams that
keep the data bus busy, and behind writes that keep the write buffer full.
---
 .../sim/dram/DRAMsim3/src/command_queue.cc    | 44 +++++++++++++++++--
 rad-sim/sim/dram/DRAMsim3/src/command_queue.h |  3 ++
 rad-sim/sim/dram/DRAMsim3/src/controller.cc   | 13 +++++-
 rad-sim/sim/dram/DRAMsim3/src/controller.h    |  1 +
 4 files changed, 56 insertions(+), 5 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc b/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
index db276e9..cfd7c57 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
@@ -2,6 +2,9 @@
 
 namespace dramsim3 {
 
+// Cycles for which the oldest command of a queue may be overtaken by others
+static const uint64_t kStarvationLimit = 500;
+
 CommandQueue::CommandQueue(int channel_id, const Config& config,
                            const ChannelState& channel_state,
                            SimpleStats& simple_stats)
@@ -26,6 +29,7 @@ CommandQueue::CommandQueue(int channel_id, const Config& config,
     }
 
     queues_.reserve(num_queues_);
+    head_since_.resize(num_queues_, 0);
     for (int i = 0; i < num_queues_; i++) {
         auto cmd_queue = std::vector<Command>();
         cmd_queue.reserve(config_.cmd_queue_size);
@@ -34,6 +38,16 @@ CommandQueue::CommandQueue(int channel_id, const Config& config,
 }
 
 Command CommandQueue::GetCommandToIssue() {
+    // row hits and other commands that keep the bus busy can hold back a command
+    // forever, so once it has waited too long no other may use the bus before
+    int starved = GetStarvedQueue();
+    if (starved >= 0) {
+        auto cmd =
+            channel_state_.GetReadyCommand(queues_[starved].front(), clk_);
+        if (cmd.IsValid()) {
+            return cmd;
+        }
+    }
     for (int i = 0; i < num_queues_; i++) {
         auto& queue = GetNextQueue();
         // if we're refresing, skip the command queues that are involved
@@ -43,7 +57,7 @@ Command CommandQueue::GetCommandToIssue() {
             }
         }
         auto cmd = GetFirstReadyInQueue(queue);
-        if (cmd.IsValid()) {
+        if (cmd.IsValid() && (starved < 0 || !cmd.IsReadWrite())) {
             return cmd;
         }
     }
@@ -122,8 +136,12 @@ bool CommandQueue::QueueEmpty() const {
 
 
 bool CommandQueue::AddCommand(Command cmd) {
-    auto& queue = GetQueue(cmd.Rank(), cmd.Bankgroup(), cmd.Bank());
+    int q_idx = GetQueueIndex(cmd.Rank(), cmd.Bankgroup(), cmd.Bank());
+    auto& queue = queues_[q_idx];
     if (queue.size() < queue_size_) {
+        if (queue.empty()) {
+            head_since_[q_idx] = clk_;
+        }
         queue.push_back(cmd);
         rank_q_empty[cmd.Rank()] = false;
         return true;
@@ -193,9 +211,13 @@ Command CommandQueue::GetFirstReadyInQueue(CMDQueue& queue) const {
 }
 
 void CommandQueue::EraseRWCommand(const Command& cmd) {
-    auto& queue = GetQueue(cmd.Rank(), cmd.Bankgroup(), cmd.Bank());
+    int q_idx = GetQueueIndex(cmd.Rank(), cmd.Bankgroup(), cmd.Bank());
+    auto& queue = queues_[q_idx];
     for (auto cmd_it = queue.begin(); cmd_it != queue.end(); cmd_it++) {
         if (cmd.hex_addr == cmd_it->hex_addr && cmd.cmd_type == cmd_it->cmd_type) {
+            if (cmd_it == queue.begin()) {
+                head_since_[q_idx] = clk_;
+            }
             queue.erase(cmd_it);
             return;
         }
@@ -204,6 +226,22 @@ void CommandQueue::EraseRWCommand(const Command& cmd) {
     exit(1);
 }
 
+int CommandQueue::GetStarvedQueue() const {
+    int starved = -1;
+    for (int i = 0; i < num_queues_; i++) {
+        if (queues_[i].empty() || clk_ - head_since_[i] < kStarvationLimit) {
+            continue;
+        }
+        if (is_in_ref_ && ref_q_indices_.find(i) != ref_q_indices_.end()) {
+            continue;
+        }
+        if (starved < 0 || head_since_[i] < head_since_[starved]) {
+            starved = i;
+        }
+    }
+    return starved;
+}
+
 int CommandQueue::QueueUsage() const {
     int usage = 0;
     for (auto i = queues_.begin(); i != queues_.end(); i++) {
diff --git a/rad-sim/sim/dram/DRAMsim3/src/command_queue.h b/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
index 9aa78c8..1e71bf7 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
+++ b/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
@@ -38,6 +38,7 @@ class CommandQueue {
     CMDQueue& GetQueue(int rank, int bankgroup, int bank);
     CMDQueue& GetNextQueue();
     void GetRefQIndices(const Command& ref);
+    int GetStarvedQueue() const;
     Command PrepRefCmd(const CMDIterator& it, const Command& ref) const;
 
     QueueStructure queue_structure_;
@@ -46,6 +47,8 @@ class CommandQueue {
     SimpleStats& simple_stats_;
 
     std::vector<CMDQueue> queues_;
+    // since when the oldest command of each queue has been the oldest
+    std::vector<uint64_t> head_since_;
 
     // Refresh related data structures
     std::unordered_set<int> ref_q_indices_;
diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index 28da5fa..b1d016d 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -26,7 +26,8 @@ Controller::Controller(int channel, const Config &config, const Timing &timing)
                           ? RowBufPolicy::CLOSE_PAGE
                           : RowBufPolicy::OPEN_PAGE),
       last_trans_clk_(0),
-      write_draining_(0) {
+      write_draining_(0),
+      drain_end_clk_(0) {
     if (is_unified_queue_) {
         unified_queue_.reserve(config_.trans_queue_size);
     } else {
@@ -196,7 +197,11 @@ bool Controller::AddTransaction(Transaction trans) {
 
 void Controller::ScheduleTransaction() {
     // determine whether to schedule read or write
-    if (write_draining_ == 0 && !is_unified_queue_) {
+    // writes that keep the buffer full must not lock out the reads that waited
+    // for the last drain, so these come before the next one
+    bool reads_waited = !read_queue_.empty() &&
+                        read_queue_.front().added_cycle < drain_end_clk_;
+    if (write_draining_ == 0 && !reads_waited && !is_unified_queue_) {
         // we basically have a upper and lower threshold for write buffer
         if ((write_buffer_.size() >= write_buffer_.capacity()) ||
             (write_buffer_.size() > 8 && cmd_queue_.QueueEmpty())) {
@@ -215,6 +220,7 @@ void Controller::ScheduleTransaction() {
                 // Enforce R->W dependency
                 if (pending_rd_q_.count(it->addr) > 0) {
                     write_draining_ = 0;
+                    drain_end_clk_ = clk_;
                     // A full write buffer starts draining again in the next
                     // cycle, so the read has to be scheduled in this one
                     for (auto rd = read_queue_.begin(); rd != read_queue_.end();
@@ -231,6 +237,9 @@ void Controller::ScheduleTransaction() {
                     break;
                 }
                 write_draining_ -= 1;
+                if (write_draining_ == 0) {
+                    drain_end_clk_ = clk_;
+                }
             }
             cmd_queue_.AddCommand(cmd);
             queue.erase(it);
diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.h b/rad-sim/sim/dram/DRAMsim3/src/controller.h
index 77bd6af..a82b3a4 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.h
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.h
@@ -76,6 +76,7 @@ class Controller {
 
     // transaction queueing
     int write_draining_;
+    uint64_t drain_end_clk_;
     void ScheduleTransaction();
     void IssueCommand(const Command &tmp_cmd);
     Command TransToCommand(const Transaction &trans);
-- 
2.43.0


From 12e091b115e5369692c23d846684585db033b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 25/45] fix: HMC completed a read when a write of the same
 address was done

---
 rad-sim/sim/dram/DRAMsim3/src/hmc.cc | 10 +++++++---
 rad-sim/sim/dram/DRAMsim3/src/hmc.h  |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/hmc.cc b/rad-sim/sim/dram/DRAMsim3/src/hmc.cc
index 5f5c23b..517e047 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/hmc.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/hmc.cc
@@ -547,9 +547,9 @@ void HMCMemorySystem::DRAMClockTick() {
         while (true) {
             auto pair = ctrls_[i]->ReturnDoneTrans(clk_);
             if (pair.second == 1) {  // write
-                VaultCallback(pair.first);
+                VaultCallback(pair.first, true);
             } else if (pair.second == 0) {  // read
-                VaultCallback(pair.first);
+                VaultCallback(pair.first, false);
             } else {
                 break;
             }
@@ -618,13 +618,17 @@ void HMCMemorySystem::InsertReqToDRAM(HMCRequest *req) {
     return;
 }
 
-void HMCMemorySystem::VaultCallback(uint64_t req_id) {
+void HMCMemorySystem::VaultCallback(uint64_t req_id, bool is_write) {
     // we will use hex addr as the req_id and use a multimap to lookup the
     // requests the vaults cannot directly talk to the CPU so this callback will
     // be passed to the vaults and is responsible to put the responses back to
     // response queues
 
+    // a read and a write of the same address may be outstanding together
     auto it = resp_lookup_table_.find(req_id);
+    while ((it->second->type != HMCRespType::RD_RS) != is_write) {
+        ++it;
+    }
     HMCResponse *resp = it->second;
     // all data from dram received, put packet in xbar and return
     resp_lookup_table_.erase(it);
diff --git a/rad-sim/sim/dram/DRAMsim3/src/hmc.h b/rad-sim/sim/dram/DRAMsim3/src/hmc.h
index f9900c6..f2953be 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/hmc.h
+++ b/rad-sim/sim/dram/DRAMsim3/src/hmc.h
@@ -127,7 +127,7 @@ class HMCMemorySystem : public BaseDRAMSystem {
     void DrainRequests();
     void DrainResponses();
     void InsertReqToDRAM(HMCRequest* req);
-    void VaultCallback(uint64_t req_id);
+    void VaultCallback(uint64_t req_id, bool is_write);
     std::vector<int> BuildAgeQueue(std::vector<int>& age_counter);
     void XbarArbitrate();
     inline void IterateNextLink();
-- 
2.43.0


From 5829af14326a43bb8b02e99414a66efb28e13ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 26/45] fix: read responses an initiator does not accept
 blocked its write responses

---
 rad-sim/sim/noc/aximm_slave_adapter.cpp | 93 +++++++++++++------------
 rad-sim/sim/noc/aximm_slave_adapter.hpp |  6 +-
 2 files changed, 54 insertions(+), 45 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index a304114..a4d07d9 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -73,6 +73,8 @@ aximm_slave_adapter::aximm_slave_adapter(
   for (int i = 0; i < AXI_NUM_RSP_TYPES; i++) {
     _ejection_afifo_priority.push(i);
   }
+  _output_afifos.resize(AXI_NUM_RSP_TYPES);
+  _output_afifo_priority = 0;
 
   // Response pipeline modules described as SystemC methods and threads
   SC_CTHREAD(OutputEjection, noc_clk.pos());
@@ -548,7 +550,8 @@ void aximm_slave_adapter::OutputDepacketization() {
     unsigned int highest_priority_fifo_id = _ejection_afifo_priority.front();
     bool fifo_has_complete_packet =
         _ejection_afifo_push_counter[highest_priority_fifo_id].read() >
-        _ejection_afifo_pop_counter[highest_priority_fifo_id].read();
+            _ejection_afifo_pop_counter[highest_priority_fifo_id].read() &&
+        _output_afifos[highest_priority_fifo_id].size() < 2;
 
     // If no ejection FIFO is currently being depacketized
     if (!_ejection_afifo_is_depacketizing.read()) {
@@ -567,49 +570,45 @@ void aximm_slave_adapter::OutputDepacketization() {
         highest_priority_fifo_id = _ejection_afifo_priority.front();
         fifo_has_complete_packet =
             _ejection_afifo_push_counter[highest_priority_fifo_id].read() >
-            _ejection_afifo_pop_counter[highest_priority_fifo_id].read();
+                _ejection_afifo_pop_counter[highest_priority_fifo_id].read() &&
+            _output_afifos[highest_priority_fifo_id].size() < 2;
       }
     }
 
-    // If there is a complete packet, set depacketization flag and start
+    // If there is a complete packet and the output double buffer (FIFO of size
+    // 2) of its type has free space, set depacketization flag and start
     // processing it
     if (fifo_has_complete_packet) {
-      // If output double buffer (FIFO of size 2) has free space, depacketize
-      // flits
-      if (_output_afifo.size() < 2) {
-        // Pop a flit from the highest priority ejection FIFO
-        sc_flit processed_flit =
-            _ejection_afifos[highest_priority_fifo_id].front();
-        _ejection_afifos[highest_priority_fifo_id].pop();
-        _constructed_packet.AddFlit(processed_flit);
-
-        // Write credit for the accepted flit to the corresponding VC
-        _ejected_flits->insert(
-            make_pair(_node_id, processed_flit._vc_id.to_uint()));
-
-        // If the flit is a tail, push constructed packet to output double
-        // buffer & reset depacketization flag
-        if (processed_flit._tail) {
-          _output_afifo.push(_constructed_packet);
-          NoCTransactionTelemetry::RecordTransactionTailDepacketization(
-              processed_flit._sim_transaction_id);
-          _constructed_packet.Reset();
-          _ejection_afifo_is_depacketizing.write(false);
-
-          // Update FIFO packet pop counter
-          int updated_count =
-              _ejection_afifo_pop_counter[highest_priority_fifo_id].read() + 1;
-          _ejection_afifo_pop_counter[highest_priority_fifo_id].write(
-              updated_count);
-          assert(updated_count <=
-                 _ejection_afifo_push_counter[highest_priority_fifo_id]);
-
-          // Adjust ejection FIFOs priority status
-          _ejection_afifo_priority.push(_ejection_afifo_priority.front());
-          _ejection_afifo_priority.pop();
-        } else {
-          _ejection_afifo_is_depacketizing.write(true);
-        }
+      // Pop a flit from the highest priority ejection FIFO
+      sc_flit processed_flit =
+          _ejection_afifos[highest_priority_fifo_id].front();
+      _ejection_afifos[highest_priority_fifo_id].pop();
+      _constructed_packet.AddFlit(processed_flit);
+
+      // Write credit for the accepted flit to the corresponding VC
+      _ejected_flits->insert(
+          make_pair(_node_id, processed_flit._vc_id.to_uint()));
+
+      // If the flit is a tail, push constructed packet to output double
+      // buffer & reset depacketization flag
+      if (processed_flit._tail) {
+        _output_afifos[highest_priority_fifo_id].push(_constructed_packet);
+        NoCTransactionTelemetry::RecordTransactionTailDepacketization(
+            processed_flit._sim_transaction_id);
+        _constructed_packet.Reset();
+        _ejection_afifo_is_depacketizing.write(false);
+
+        // Update FIFO packet pop counter
+        int updated_count =
+            _ejection_afifo_pop_counter[highest_priority_fifo_id].read() + 1;
+        _ejection_afifo_pop_counter[highest_priority_fifo_id].write(
+            updated_count);
+        assert(updated_count <=
+               _ejection_afifo_push_counter[highest_priority_fifo_id]);
+
+        // Adjust ejection FIFOs priority status
+        _ejection_afifo_priority.push(_ejection_afifo_priority.front());
+        _ejection_afifo_priority.pop();
       } else {
         _ejection_afifo_is_depacketizing.write(true);
       }
@@ -628,10 +627,18 @@ void aximm_slave_adapter::OutputInterface() {
   wait();
 
   while (true) {
-    if (!_output_afifo.empty() && !_output_packet_ready) {
-      _output_packet = _output_afifo.front();
-      _output_afifo.pop();
-      _output_packet_ready = true;
+    // Pick a packet whose channel is ready, round-robin over response types
+    bool channel_ready[AXI_NUM_RSP_TYPES] = {aximm_interface.rready.read(),
+                                             aximm_interface.bready.read()};
+    for (unsigned int i = 0; i < AXI_NUM_RSP_TYPES && !_output_packet_ready;
+         i++) {
+      unsigned int type_id = (_output_afifo_priority + i) % AXI_NUM_RSP_TYPES;
+      if (!_output_afifos[type_id].empty() && channel_ready[type_id]) {
+        _output_packet = _output_afifos[type_id].front();
+        _output_afifos[type_id].pop();
+        _output_packet_ready = true;
+        _output_afifo_priority = (type_id + 1) % AXI_NUM_RSP_TYPES;
+      }
     }
 
     if (_output_packet_ready &&
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.hpp b/rad-sim/sim/noc/aximm_slave_adapter.hpp
index c1d951b..c788091 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.hpp
@@ -145,8 +145,10 @@ private:
   // Flag to signal that a packet is being depacketized
   sc_signal<bool> _ejection_afifo_is_depacketizing;
 
-  // Double buffer for output packet, implemented as a FIFO of size 2
-  std::queue<sc_packet> _output_afifo;
+  // Double buffers for output packets, implemented as FIFOs of size 2, one per
+  // response type since a stalled type must not block the other
+  std::vector<std::queue<sc_packet>> _output_afifos;
+  unsigned int _output_afifo_priority;
 
   // Packet datastructures for packets depacketized and pushed
   // (_constructed_packet)/popped (_output_packet) to/from the output
-- 
2.43.0


From d6b8184b6d44658a88ec7759bb10925a980e6b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 27/45] fix: traffic flow report underflowed the hop count of
 transactions in flight

---
 rad-sim/sim/radsim_telemetry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rad-sim/sim/radsim_telemetry.cpp b/rad-sim/sim/radsim_telemetry.cpp
index a8a5c5e..71dd505 100644
--- a/rad-sim/sim/radsim_telemetry.cpp
+++ b/rad-sim/sim/radsim_telemetry.cpp
@@ -82,7 +82,9 @@ std::vector<double> NoCTransactionTelemetry::DumpTrafficFlows(const std::string&
       traffic_bits[noc_id][src][dest] = entry.second.dataw;
     else
       traffic_bits[noc_id][src][dest] += entry.second.dataw;
-    traffic_num_hops[noc_id][src][dest] = entry.second.num_hops - 1;
+    // Transactions still in flight do not know their number of hops yet
+    if (entry.second.num_hops > 0)
+      traffic_num_hops[noc_id][src][dest] = entry.second.num_hops - 1;
   }
   
   std::vector<double> aggregate_bandwidths;
-- 
2.43.0


From 1dc23a4015f057e301584185fabf6daf0267062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 28/45] fix: traffic flow report counted the transactions of
 other devices

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 4 ++--
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 6 +++---
 rad-sim/sim/noc/axis_slave_adapter.cpp   | 2 +-
 rad-sim/sim/radsim_telemetry.cpp         | 6 +++++-
 rad-sim/sim/radsim_telemetry.hpp         | 4 +++-
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index eed2c54..f1dbcd1 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -448,7 +448,7 @@ void aximm_master_adapter::InputInterface() {
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, noc_dest, AXI_TYPE_R, _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_R, _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
     } else if (aximm_interface.bready.read() && aximm_interface.bvalid.read()) {
       // Capture the values at the AXI B port
@@ -470,7 +470,7 @@ void aximm_master_adapter::InputInterface() {
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, noc_dest, AXI_TYPE_B, _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_B, _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
     } else {
       _i_valid.write(false);
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index a4d07d9..19c4dd2 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -191,7 +191,7 @@ void aximm_slave_adapter::InputInterface() {
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, noc_dest, AXI_TYPE_AR, _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_AR, _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
       // std::cout << this->name() << ": Registered AR transaction (user = "
       //           << aximm_interface.aruser.read().to_uint64() << ")!"
@@ -224,7 +224,7 @@ void aximm_slave_adapter::InputInterface() {
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, noc_dest, AXI_TYPE_AW, _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_AW, _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
       /*std::cout << this->name() << ": Registered AW transaction (user = "
                 << aximm_interface.awuser.read().to_uint64() << ")!"
@@ -250,7 +250,7 @@ void aximm_slave_adapter::InputInterface() {
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
           _node_id, (int)_last_awdest.read().to_uint(), AXI_TYPE_W,
-          _interface_dataw, _network_id);
+          _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
       /*std::cout << this->name() << ": Registered W transaction (user = "
                 << aximm_interface.wuser.read().to_uint64() << ")!"
diff --git a/rad-sim/sim/noc/axis_slave_adapter.cpp b/rad-sim/sim/noc/axis_slave_adapter.cpp
index 7055e41..6e5e214 100644
--- a/rad-sim/sim/noc/axis_slave_adapter.cpp
+++ b/rad-sim/sim/noc/axis_slave_adapter.cpp
@@ -130,7 +130,7 @@ void axis_slave_adapter::InputInterface() {
                 _node_id,
                 GetInputDestinationNode(axis_interfaces[interface_id].tdest.read()),
                 _interface_types[interface_id], _interface_dataw[interface_id],
-                _network_id);
+                _network_id, _rad_id);
 
         // Register the packet ID, transaction type, and which interface it came from
         input_transaction.transaction_id = unique_sim_packet_id;
diff --git a/rad-sim/sim/radsim_telemetry.cpp b/rad-sim/sim/radsim_telemetry.cpp
index 71dd505..108488c 100644
--- a/rad-sim/sim/radsim_telemetry.cpp
+++ b/rad-sim/sim/radsim_telemetry.cpp
@@ -7,13 +7,14 @@ NoCTransactionTelemetry::NoCTransactionTelemetry() {}
 NoCTransactionTelemetry::~NoCTransactionTelemetry() {}
 
 // Records the initiation timestamp of a transaction and returns its unique global ID
-int NoCTransactionTelemetry::RecordTransactionInitiation(int src, int dest, int type, int dataw, int network_id) {
+int NoCTransactionTelemetry::RecordTransactionInitiation(int src, int dest, int type, int dataw, int network_id, int rad_id) {
   NoCTransactionTrace entry;
   entry.src_node = src;
   entry.dest_node = ((1 << AXIS_DEST_FIELDW) - 1) & dest; //extract only local NoC node. ignore any remote NoC node set for inter-rad network.
   entry.transaction_type = type;
   entry.dataw = dataw;
   entry.network_id = network_id;
+  entry.rad_id = rad_id;
   entry.t_init = sc_time_stamp().to_double() / 1000;
   global_transaction_id++;
   trace_bookkeeping[global_transaction_id] = entry;
@@ -75,6 +76,9 @@ std::vector<double> NoCTransactionTelemetry::DumpTrafficFlows(const std::string&
     traffic_num_hops[noc_id].resize(num_nodes);
   }
   for (auto& entry : trace_bookkeeping) {
+    // The bookkeeping holds the transactions of all RADs of the cluster
+    if ((unsigned int) entry.second.rad_id != rad_id)
+      continue;
     unsigned int noc_id = (unsigned int) entry.second.network_id;
     unsigned int src = (unsigned int) entry.second.src_node;
     unsigned int dest = (unsigned int) entry.second.dest_node;
diff --git a/rad-sim/sim/radsim_telemetry.hpp b/rad-sim/sim/radsim_telemetry.hpp
index 3d4638f..7610af1 100644
--- a/rad-sim/sim/radsim_telemetry.hpp
+++ b/rad-sim/sim/radsim_telemetry.hpp
@@ -18,6 +18,7 @@ struct NoCTransactionTrace {
   int transaction_type;     // Transaction type
   int dataw;                // Data width of the transaction in bits
   int network_id;           // NoC ID of the transaction
+  int rad_id;               // RAD ID of the NoC of the transaction
   double t_init;            // Time at which transaction is initiated
   double t_packet;          // Time at which transaction is packetized
   double t_inject;          // Time at which head flit of transaction is injected into the NoC
@@ -33,6 +34,7 @@ struct NoCTransactionTrace {
         transaction_type(0),
         dataw(0),
         network_id(0),
+        rad_id(0),
         t_init(0.0),
         t_packet(0.0),
         t_inject(0.0),
@@ -50,7 +52,7 @@ class NoCTransactionTelemetry {
 
   NoCTransactionTelemetry();
   ~NoCTransactionTelemetry();
-  static int RecordTransactionInitiation(int src, int dest, int type, int dataw, int network_id);
+  static int RecordTransactionInitiation(int src, int dest, int type, int dataw, int network_id, int rad_id);
   static void RecordTransactionTailPacketization(int id);
   static void RecordTransactionHeadInjection(int id);
   static void RecordTransactionTailEjection(int id);
-- 
2.43.0


From bfeadcc90afa55fb2faac1ed9325abba73b5d609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 29/45] fix: times in the transaction log were rounded to six
 digits

---
 rad-sim/sim/radsim_telemetry.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rad-sim/sim/radsim_telemetry.cpp b/rad-sim/sim/radsim_telemetry.cpp
index 108488c..081f754 100644
--- a/rad-sim/sim/radsim_telemetry.cpp
+++ b/rad-sim/sim/radsim_telemetry.cpp
@@ -53,6 +53,8 @@ void NoCTransactionTelemetry::UpdateHops(int id, int num_hops) { trace_bookkeepi
 
 void NoCTransactionTelemetry::DumpStatsToFile(const std::string& filename) {
   std::ofstream ofile(filename, std::ofstream::out);
+  // Times are multiples of 1 ps: print all of their digits
+  ofile.precision(12);
   ofile << "id, noc_id, src, dest, dataw, hops, t_init, t_packet, t_inject, t_eject, t_depacket, t_receive, latency" << endl;
   for (auto& entry : trace_bookkeeping) {
     ofile << entry.first << ", " << entry.second.network_id << ", " << entry.second.src_node << ", " 
-- 
2.43.0


From 468b0a10109d65eaa46e8b7301fcfaa84178d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 30/45] fix: networks of one device overwrote each other's
 routing parameters

---
 rad-sim/sim/noc/aximm_master_adapter.cpp     |  1 +
 rad-sim/sim/noc/aximm_slave_adapter.cpp      |  1 +
 rad-sim/sim/noc/axis_slave_adapter.cpp       |  1 +
 rad-sim/sim/noc/booksim/networks/anynet.cpp  |  9 ++++--
 rad-sim/sim/noc/booksim/networks/anynet.hpp  |  1 +
 rad-sim/sim/noc/booksim/networks/cmesh.cpp   |  9 ++++++
 rad-sim/sim/noc/booksim/networks/cmesh.hpp   |  2 ++
 rad-sim/sim/noc/booksim/networks/network.cpp | 30 ++++++++++++++++++++
 rad-sim/sim/noc/booksim/networks/network.hpp |  9 ++++++
 rad-sim/sim/noc/radsim_noc.cpp               |  1 +
 10 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index f1dbcd1..21c1f3d 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -621,6 +621,7 @@ void aximm_master_adapter::InputInjection() {
 
         // Set flit routing information
         if (_lookahead_routing) {
+          _noc->SelectRoutingState();
           const FlitChannel *inject = _noc->GetInject(booksim_flit->src);
           const Router *router = inject->GetSink();
           assert(router);
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 19c4dd2..28f90c0 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -427,6 +427,7 @@ void aximm_slave_adapter::InputInjection() {
 
         // Set flit routing information
         if (_lookahead_routing) {
+          _noc->SelectRoutingState();
           const FlitChannel *inject = _noc->GetInject(booksim_flit->src);
           const Router *router = inject->GetSink();
           assert(router);
diff --git a/rad-sim/sim/noc/axis_slave_adapter.cpp b/rad-sim/sim/noc/axis_slave_adapter.cpp
index 6e5e214..cdbc765 100644
--- a/rad-sim/sim/noc/axis_slave_adapter.cpp
+++ b/rad-sim/sim/noc/axis_slave_adapter.cpp
@@ -252,6 +252,7 @@ void axis_slave_adapter::InputInjection() {
         booksim_flit->data = _to_be_injected_flit._payload;
 
         if (_lookahead_routing) {
+          _noc->SelectRoutingState();
           const FlitChannel *inject = _noc->GetInject(booksim_flit->src);
           const Router *router = inject->GetSink();
           assert(router);
diff --git a/rad-sim/sim/noc/booksim/networks/anynet.cpp b/rad-sim/sim/noc/booksim/networks/anynet.cpp
index 5ed6430..5651bff 100644
--- a/rad-sim/sim/noc/booksim/networks/anynet.cpp
+++ b/rad-sim/sim/noc/booksim/networks/anynet.cpp
@@ -56,7 +56,7 @@
 #include <limits>
 #include <algorithm>
 //this is a hack, I can't easily get the routing talbe out of the network
-map<int, int>* global_routing_table;
+const map<int, int>* global_routing_table;
 
 AnyNet::AnyNet( const Configuration &config, const string & name )
   :  Network( config, name ){
@@ -216,7 +216,7 @@ void min_anynet( const Router *r, const Flit *f, int in_channel,
   int out_port=-1;
   if(!inject){
     assert(global_routing_table[r->GetID()].count(f->dest)!=0);
-    out_port=global_routing_table[r->GetID()][f->dest];
+    out_port=global_routing_table[r->GetID()].at(f->dest);
   }
  
 
@@ -243,6 +243,11 @@ void min_anynet( const Router *r, const Flit *f, int in_channel,
   outputs->AddRange( out_port , vcBegin, vcEnd );
 }
 
+void AnyNet::SelectRoutingState( ) const {
+  Network::SelectRoutingState( );
+  global_routing_table = &routing_table[0];
+}
+
 void AnyNet::buildRoutingTable(){
     cout<<"========================== Routing table  =====================\n";
   routing_table.resize(_size);
diff --git a/rad-sim/sim/noc/booksim/networks/anynet.hpp b/rad-sim/sim/noc/booksim/networks/anynet.hpp
index 514f862..cb65a33 100644
--- a/rad-sim/sim/noc/booksim/networks/anynet.hpp
+++ b/rad-sim/sim/noc/booksim/networks/anynet.hpp
@@ -63,6 +63,7 @@ public:
   static void RegisterRoutingFunctions();
   double Capacity( ) const {return -1;}
   void InsertRandomFaults( const Configuration &config ){}
+  void SelectRoutingState( ) const;
 };
 
 void min_anynet( const Router *r, const Flit *f, int in_channel, 
diff --git a/rad-sim/sim/noc/booksim/networks/cmesh.cpp b/rad-sim/sim/noc/booksim/networks/cmesh.cpp
index f597708..94dbb4c 100644
--- a/rad-sim/sim/noc/booksim/networks/cmesh.cpp
+++ b/rad-sim/sim/noc/booksim/networks/cmesh.cpp
@@ -68,6 +68,15 @@ void CMesh::RegisterRoutingFunctions() {
   gRoutingFunctionMap["xy_yx_no_express_cmesh"]  = &xy_yx_no_express_cmesh;
 }
 
+void CMesh::SelectRoutingState( ) const {
+  Network::SelectRoutingState( ) ;
+  _cX = _c / _n ;
+  _cY = _c / _cX ;
+  _memo_NodeShiftX = _cX >> 1 ;
+  _memo_NodeShiftY = log_two(gK * _cX) + ( _cY >> 1 ) ;
+  _memo_PortShiftY = log_two(gK * _cX)  ;
+}
+
 void CMesh::_ComputeSize( const Configuration &config ) {
 
   int k = config.GetInt( "k" );
diff --git a/rad-sim/sim/noc/booksim/networks/cmesh.hpp b/rad-sim/sim/noc/booksim/networks/cmesh.hpp
index a12ee67..c082aac 100644
--- a/rad-sim/sim/noc/booksim/networks/cmesh.hpp
+++ b/rad-sim/sim/noc/booksim/networks/cmesh.hpp
@@ -55,6 +55,8 @@ public:
 
   static void RegisterRoutingFunctions() ;
 
+  void SelectRoutingState( ) const ;
+
 private:
 
   static int _cX ;
diff --git a/rad-sim/sim/noc/booksim/networks/network.cpp b/rad-sim/sim/noc/booksim/networks/network.cpp
index 14dac00..f33a48d 100644
--- a/rad-sim/sim/noc/booksim/networks/network.cpp
+++ b/rad-sim/sim/noc/booksim/networks/network.cpp
@@ -116,9 +116,39 @@ Network * Network::New(const Configuration & config, const string & name)
     if ( n && ( config.GetInt( "link_failures" ) > 0 ) ) {
         n->InsertRandomFaults( config );
     }
+    if ( n ) n->_SaveRoutingState( );
     return n;
 }
 
+// Remembers the global state of the routing functions as set up for this network
+void Network::_SaveRoutingState( )
+{
+    _radix = gK;
+    _dimensions = gN;
+    _concentration = gC;
+    _vc_partitions = { gNumVCs, gReadReqBeginVC, gReadReqEndVC, gWriteReqBeginVC, gWriteReqEndVC, gWriteDataBeginVC,
+                       gWriteDataEndVC, gReadReplyBeginVC, gReadReplyEndVC, gWriteReplyBeginVC, gWriteReplyEndVC };
+}
+
+void Network::SelectRoutingState( ) const
+{
+    gK = _radix;
+    gN = _dimensions;
+    gC = _concentration;
+    gNodes = _nodes;
+    gNumVCs = _vc_partitions[0];
+    gReadReqBeginVC = _vc_partitions[1];
+    gReadReqEndVC = _vc_partitions[2];
+    gWriteReqBeginVC = _vc_partitions[3];
+    gWriteReqEndVC = _vc_partitions[4];
+    gWriteDataBeginVC = _vc_partitions[5];
+    gWriteDataEndVC = _vc_partitions[6];
+    gReadReplyBeginVC = _vc_partitions[7];
+    gReadReplyEndVC = _vc_partitions[8];
+    gWriteReplyBeginVC = _vc_partitions[9];
+    gWriteReplyEndVC = _vc_partitions[10];
+}
+
 // Allocates memory for all the Network datastructures.
 void Network::_Alloc( )
 {
diff --git a/rad-sim/sim/noc/booksim/networks/network.hpp b/rad-sim/sim/noc/booksim/networks/network.hpp
index b8cd3c8..33f4a6f 100644
--- a/rad-sim/sim/noc/booksim/networks/network.hpp
+++ b/rad-sim/sim/noc/booksim/networks/network.hpp
@@ -76,6 +76,11 @@ protected:
     // All Network channels (injection, ejection, links)
     deque<TimedModule *> _timed_modules;
 
+    // What the (global) routing functions need to know about this network
+    int _radix, _dimensions, _concentration;
+    vector<int> _vc_partitions;
+    void _SaveRoutingState( );
+
     virtual void _ComputeSize( const Configuration &config ) = 0;
     virtual void _BuildNet( const Configuration &config ) = 0;
 
@@ -95,6 +100,10 @@ public:
 
     inline int NumNodes( ) const {return _nodes;}
 
+    // Points the global state of the routing functions to this network. Has to be called before routing a flit of this
+    // network if there can be other networks.
+    virtual void SelectRoutingState( ) const;
+
     virtual void InsertRandomFaults( const Configuration &config );
     void OutChannelFault( int r, int c, bool fault = true );
 
diff --git a/rad-sim/sim/noc/radsim_noc.cpp b/rad-sim/sim/noc/radsim_noc.cpp
index 69d72d7..28ef156 100644
--- a/rad-sim/sim/noc/radsim_noc.cpp
+++ b/rad-sim/sim/noc/radsim_noc.cpp
@@ -305,6 +305,7 @@ void radsim_noc::Tick() {
 
   while (true) {
     SetSimTime(noc_cycle++);
+    _booksim_noc->SelectRoutingState();
     _booksim_noc->ReadInputs();
     for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
       // A node returns one credit per NoC cycle, the others stay pending
-- 
2.43.0


From 9da91358499bb5ecf99f45dcfefdae305820c939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 31/45] fix: memory-mapped addresses were routed wrongly with
 several networks

---
 rad-sim/sim/design_context.cpp           | 9 +--------
 rad-sim/sim/noc/aximm_master_adapter.cpp | 6 ++++--
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 6 ++++--
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/rad-sim/sim/design_context.cpp b/rad-sim/sim/design_context.cpp
index 1ae1be7..1d43b9b 100644
--- a/rad-sim/sim/design_context.cpp
+++ b/rad-sim/sim/design_context.cpp
@@ -72,15 +72,8 @@ std::string GetModuleNameFromPortName(std::string &port_name) {
 
 uint64_t DetermineBaseAddress(int noc_id, int node_id, int rad_id) {
   int num_nocs = radsim_config.GetIntKnobPerRad("noc_num_nocs", rad_id);
-  int max_num_nodes = 0;
-  for (int noc_id = 0; noc_id < num_nocs; noc_id++) {
-    int num_nodes = radsim_config.GetIntVectorKnobPerRad("noc_num_nodes", noc_id, rad_id);
-    if (num_nodes > max_num_nodes) {
-      max_num_nodes = num_nodes;
-    }
-  }
   int noc_bits = (int)ceil(log2(num_nocs));
-  int node_bits = (int)ceil(log2(max_num_nodes));
+  int node_bits = AXI4_NODE_ADDRW;
   uint64_t base_addr = noc_id << node_bits;
   base_addr += node_id;
   base_addr <<= (AXI4_ADDRW - noc_bits - node_bits);
diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 21c1f3d..b9966a6 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -402,8 +402,10 @@ void aximm_master_adapter::InputReady() {
 }
 
 int aximm_master_adapter::GetInputDestinationNode(sc_bv<AXI4_ADDRW> &addr) {
-  return addr.range(AXI4_ADDRW - 1, AXI4_ADDRW - AXI4_NODE_ADDRW)
-      .to_uint();
+  // The node address follows the NoC ID (see DetermineBaseAddress)
+  int num_nocs = radsim_config.GetIntKnobPerRad("noc_num_nocs", _rad_id);
+  int node_msb = AXI4_ADDRW - (int)ceil(log2(num_nocs)) - 1;
+  return addr.range(node_msb, node_msb - AXI4_NODE_ADDRW + 1).to_uint();
 }
 
 // Implements the input interface capturing into the reduced set of signals to
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 28f90c0..27ebe2a 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -268,8 +268,10 @@ void aximm_slave_adapter::InputInterface() {
 // specified by the N most-significant address bits, such that num_nodes =
 // log2(N))
 int aximm_slave_adapter::GetInputDestinationNode(sc_bv<AXI4_ADDRW> &addr) {
-  return addr.range(AXI4_ADDRW - 1, AXI4_ADDRW - AXI4_NODE_ADDRW)
-      .to_uint();
+  // The node address follows the NoC ID (see DetermineBaseAddress)
+  int num_nocs = radsim_config.GetIntKnobPerRad("noc_num_nocs", _rad_id);
+  int node_msb = AXI4_ADDRW - (int)ceil(log2(num_nocs)) - 1;
+  return addr.range(node_msb, node_msb - AXI4_NODE_ADDRW + 1).to_uint();
 }
 
 // Implements the packetization logic of the selected transaction into N flits,
-- 
2.43.0


From e0a9a24bdcd3957b24c54c5e813fe5f64495c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 32/45] fix: config.py took the design settings from a randomly
 chosen design

---
 rad-sim/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index dc74c62..b4a884c 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -465,9 +465,10 @@ if __name__ == "__main__":
         print("Invalid arguments: python config.py <unique_design_name> <[optional] other_unique_design_names>")
         exit(1)
 
-    design_names = set() #No duplicating design include statements and cmake commands
+    design_names = [] #No duplicating design include statements and cmake commands, in command line order
     for i in range(1, len(sys.argv)): #skip 0th argument (that is current program name)
-        design_names.add(sys.argv[i])
+        if sys.argv[i] not in design_names:
+            design_names.append(sys.argv[i])
         print(sys.argv[i])
 
     # Check if design directory exists
@@ -476,7 +477,8 @@ if __name__ == "__main__":
             print("Cannot find design directory under rad-sim/example-designs/")
             exit(1)
 
-    # Point to YAML configuration file
+    # Point to YAML configuration file of the first design
+    design_name = design_names[0]
     config_filename = f"{os.getcwd()}/example-designs/{design_name}/config.yml"
     config_names = []
 
-- 
2.43.0


From 3239cd378bde7344927f3527e3b06218c8a81a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 33/45] fix: escape channel of min_adapt routing had no VC
 outside class 0

---
 rad-sim/sim/noc/booksim/routefunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index 30f8d47..8210196 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -1009,7 +1009,7 @@ void min_adapt_mesh( const Router *r, const Flit *f, int in_channel, OutputSet *
   
   // DOR for the escape channel (VC 0), low priority 
   int out_port = dor_next_mesh( r->GetID( ), f->dest );    
-  outputs->AddRange( out_port, 0, vcBegin, vcBegin );
+  outputs->AddRange( out_port, vcBegin, vcBegin, 0 );
   
   if ( f->watch ) {
       *gWatchOut << GetSimTime() << " | " << r->FullName() << " | "
-- 
2.43.0


From 8aa81e3565126401364d4736df12c39dcf2d0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 34/45] fix: valiant routing did not separate VCs when passing
 the destination

---
 rad-sim/sim/noc/booksim/routefunc.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index 8210196..99c6a7a 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -1356,8 +1356,8 @@ void valiant_mesh( const Router *r, const Flit *f, int in_channel, OutputSet *ou
 
     out_port = dor_next_mesh( r->GetID( ), (f->ph == 0) ? f->intm : f->dest );
 
-    // at the destination router, we don't need to separate VCs by phase
-    if(r->GetID() != f->dest) {
+    // when leaving the network, we don't need to separate VCs by phase
+    if(out_port != 2*gN) {
 
       //each class must have at least 2 vcs assigned or else valiant valiant will deadlock
       int const available_vcs = (vcEnd - vcBegin + 1) / 2;
@@ -1410,11 +1410,14 @@ void valiant_torus( const Router *r, const Flit *f, int in_channel, OutputSet *o
   } else {
 
     int phase;
+    int ring_part; // stays the same while moving on in a ring
     if ( in_channel == 2*gN ) {
       phase   = 0;  // Phase 0
+      ring_part = 0;
       f->intm = RandomInt( gNodes - 1 );
     } else {
       phase = f->ph / 2;
+      ring_part = f->ph % 2;
     }
 
     if ( ( phase == 0 ) && ( r->GetID( ) == f->intm ) ) {
@@ -1422,14 +1425,13 @@ void valiant_torus( const Router *r, const Flit *f, int in_channel, OutputSet *o
       in_channel = 2*gN; // ensures correct vc selection at the beginning of phase 2
     }
   
-    int ring_part;
     dor_next_torus( r->GetID( ), (phase == 0) ? f->intm : f->dest, in_channel,
 		    &out_port, &ring_part, false );
 
     f->ph = 2 * phase + ring_part;
 
-    // at the destination router, we don't need to separate VCs by phase, etc.
-    if(r->GetID() != f->dest) {
+    // when leaving the network, we don't need to separate VCs by phase, etc.
+    if(out_port != 2*gN) {
 
       int const ring_available_vcs = (vcEnd - vcBegin + 1) / 2;
       assert(ring_available_vcs > 0);
-- 
2.43.0


From 6a31f93a9c8bbfc9b9554efb03e68e30af49f54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 35/45] fix: express links of concentrated meshes corrupted
 routes for odd sizes

---
 rad-sim/sim/noc/booksim/networks/cmesh.cpp | 60 ++++++++++++----------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/networks/cmesh.cpp b/rad-sim/sim/noc/booksim/networks/cmesh.cpp
index 94dbb4c..44d6419 100644
--- a/rad-sim/sim/noc/booksim/networks/cmesh.cpp
+++ b/rad-sim/sim/noc/booksim/networks/cmesh.cpp
@@ -115,6 +115,22 @@ void CMesh::_ComputeSize( const Configuration &config ) {
 
 }
 
+// The router at the other end of the express link of the one at position pos on
+//  an edge of k routers. The last one of an odd number has none: itself.
+static int express_peer( int pos, int k ) {
+  const int half = k / 2 ;
+  if ( pos < half )
+    return pos + half ;
+  return ( pos < 2 * half ) ? ( pos - half ) : pos ;
+}
+
+// Whether the express link brings a packet from cur towards dest and not past it
+static bool express_helps( int cur, int dest ) {
+  const int peer = express_peer( cur, gK ) ;
+  return ( cur < dest ) ? ( ( peer > cur ) && ( peer <= dest ) )
+                        : ( ( peer < cur ) && ( peer >= dest ) ) ;
+}
+
 void CMesh::_BuildNet( const Configuration& config ) {
 
   int x_index ;
@@ -205,37 +221,25 @@ void CMesh::_BuildNet( const Configuration& config ) {
     if (x == 0){
       // Router on left edge of mesh. Connect to -x output of
       //  another router on the left edge of the mesh.
-      if (y < _k / 2 )
-	nx_in = _k * (y + _k/2) + x + offset ;
-      else
-	nx_in = _k * (y - _k/2) + x + offset ;
+      nx_in = _k * express_peer(y, _k) + x + offset ;
     }
     
     if (x == (_k-1)){
       // Router on right edge of mesh. Connect to +x output of 
       //  another router on the right edge of the mesh.
-      if (y < _k / 2)
-   	px_in = _k * (y + _k/2) + x ;
-      else
-   	px_in = _k * (y - _k/2) + x ;
+      px_in = _k * express_peer(y, _k) + x ;
     }
     
     if (y == 0) {
       // Router on bottom edge of mesh. Connect to -y output of
       //  another router on the bottom edge of the mesh.
-      if (x < _k / 2) 
-	ny_in = _k * y + (x + _k/2) + 3 * offset ;
-      else
-	ny_in = _k * y + (x - _k/2) + 3 * offset ;
+      ny_in = _k * y + express_peer(x, _k) + 3 * offset ;
     }
     
     if (y == (_k-1)) {
       // Router on top edge of mesh. Connect to +y output of
       //  another router on the top edge of the mesh
-      if (x < _k / 2)
-	py_in = _k * y + (x + _k/2) + 2 * offset ;
-      else
-	py_in = _k * y + (x - _k/2) + 2 * offset ;
+      py_in = _k * y + express_peer(x, _k) + 2 * offset ;
     }
 
     /*set latency and add the channels*/
@@ -364,7 +368,7 @@ int cmesh_xy( int cur, int dest ) {
   // Dimension-order Routing: x , y
   if (cur_x < dest_x) {
     // Express?
-    if ((dest_x - cur_x) > 1){
+    if ((dest_x - cur_x) > 1 && express_helps(cur_x, dest_x)) {
       if (cur_y == 0)
     	return gC + NEGATIVE_Y ;
       if (cur_y == (gK-1))
@@ -374,7 +378,7 @@ int cmesh_xy( int cur, int dest ) {
   }
   if (cur_x > dest_x) {
     // Express ? 
-    if ((cur_x - dest_x) > 1){
+    if ((cur_x - dest_x) > 1 && express_helps(cur_x, dest_x)) {
       if (cur_y == 0)
     	return gC + NEGATIVE_Y ;
       if (cur_y == (gK-1))
@@ -384,7 +388,7 @@ int cmesh_xy( int cur, int dest ) {
   }
   if (cur_y < dest_y) {
     // Express?
-    if ((dest_y - cur_y) > 1) {
+    if ((dest_y - cur_y) > 1 && express_helps(cur_y, dest_y)) {
       if (cur_x == 0)
     	return gC + NEGATIVE_X ;
       if (cur_x == (gK-1))
@@ -394,7 +398,7 @@ int cmesh_xy( int cur, int dest ) {
   }
   if (cur_y > dest_y) {
     // Express ?
-    if ((cur_y - dest_y) > 1 ){
+    if ((cur_y - dest_y) > 1 && express_helps(cur_y, dest_y)) {
       if (cur_x == 0)
     	return gC + NEGATIVE_X ;
       if (cur_x == (gK-1))
@@ -420,7 +424,7 @@ int cmesh_yx( int cur, int dest ) {
   // Dimension-order Routing: y, x
   if (cur_y < dest_y) {
     // Express?
-    if ((dest_y - cur_y) > 1) {
+    if ((dest_y - cur_y) > 1 && express_helps(cur_y, dest_y)) {
       if (cur_x == 0)
     	return gC + NEGATIVE_X ;
       if (cur_x == (gK-1))
@@ -430,7 +434,7 @@ int cmesh_yx( int cur, int dest ) {
   }
   if (cur_y > dest_y) {
     // Express ?
-    if ((cur_y - dest_y) > 1 ){
+    if ((cur_y - dest_y) > 1 && express_helps(cur_y, dest_y)) {
       if (cur_x == 0)
     	return gC + NEGATIVE_X ;
       if (cur_x == (gK-1))
@@ -440,7 +444,7 @@ int cmesh_yx( int cur, int dest ) {
   }
   if (cur_x < dest_x) {
     // Express?
-    if ((dest_x - cur_x) > 1){
+    if ((dest_x - cur_x) > 1 && express_helps(cur_x, dest_x)) {
       if (cur_y == 0)
     	return gC + NEGATIVE_Y ;
       if (cur_y == (gK-1))
@@ -450,7 +454,7 @@ int cmesh_yx( int cur, int dest ) {
   }
   if (cur_x > dest_x) {
     // Express ? 
-    if ((cur_x - dest_x) > 1){
+    if ((cur_x - dest_x) > 1 && express_helps(cur_x, dest_x)) {
       if (cur_y == 0)
     	return gC + NEGATIVE_Y ;
       if (cur_y == (gK-1))
@@ -692,7 +696,7 @@ int cmesh_next( int cur, int dest ) {
   // Dimension-order Routing: x , y
   if (cur_x < dest_x) {
     // Express?
-    if ((dest_x - cur_x) > gK/2-1){
+    if (express_helps(cur_x, dest_x)) {
       if (cur_y == 0)
 	return gC + NEGATIVE_Y ;
       if (cur_y == (gK-1))
@@ -702,7 +706,7 @@ int cmesh_next( int cur, int dest ) {
   }
   if (cur_x > dest_x) {
     // Express ? 
-    if ((cur_x - dest_x) > gK/2-1){
+    if (express_helps(cur_x, dest_x)) {
       if (cur_y == 0)
 	return gC + NEGATIVE_Y ;
       if (cur_y == (gK-1)) 
@@ -712,7 +716,7 @@ int cmesh_next( int cur, int dest ) {
   }
   if (cur_y < dest_y) {
     // Express?
-    if ((dest_y - cur_y) > gK/2-1) {
+    if (express_helps(cur_y, dest_y)) {
       if (cur_x == 0)
 	return gC + NEGATIVE_X ;
       if (cur_x == (gK-1))
@@ -722,7 +726,7 @@ int cmesh_next( int cur, int dest ) {
   }
   if (cur_y > dest_y) {
     // Express ?
-    if ((cur_y - dest_y) > gK/2-1){
+    if (express_helps(cur_y, dest_y)) {
       if (cur_x == 0)
 	return gC + NEGATIVE_X ;
       if (cur_x == (gK-1))
-- 
2.43.0


From 6e4ccb467ceed784822662d1cd181d6b127bac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:50 +0000
Subject: [PATCH 36/45] fix: DRAM statistics counted precharges that were never
 issued

---
 rad-sim/sim/dram/DRAMsim3/src/command_queue.cc | 6 +-----
 rad-sim/sim/dram/DRAMsim3/src/controller.cc    | 8 ++++++++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc b/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
index cfd7c57..2077d65 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
@@ -113,11 +113,7 @@ bool CommandQueue::ArbitratePrecharge(const CMDIterator& cmd_it,
     bool rowhit_limit_reached =
         channel_state_.RowHitCount(cmd.Rank(), cmd.Bankgroup(), cmd.Bank()) >=
         4;
-    if (!pending_row_hits_exist || rowhit_limit_reached) {
-        simple_stats_.Increment("num_ondemand_pres");
-        return true;
-    }
-    return false;
+    return !pending_row_hits_exist || rowhit_limit_reached;
 }
 
 bool CommandQueue::WillAcceptCommand(int rank, int bankgroup, int bank) const {
diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index b1d016d..a9cab06 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -68,6 +68,7 @@ void Controller::ClockTick() {
     refresh_.ClockTick();
 
     bool cmd_issued = false;
+    bool on_demand = false;
     Command cmd;
     if (channel_state_.IsRefreshWaiting()) {
         cmd = cmd_queue_.FinishRefresh();
@@ -76,17 +77,24 @@ void Controller::ClockTick() {
     // cannot find a refresh related command or there's no refresh
     if (!cmd.IsValid()) {
         cmd = cmd_queue_.GetCommandToIssue();
+        on_demand = true;
     }
 
     if (cmd.IsValid()) {
         IssueCommand(cmd);
         cmd_issued = true;
+        if (on_demand && cmd.cmd_type == CommandType::PRECHARGE) {
+            simple_stats_.Increment("num_ondemand_pres");
+        }
 
         if (config_.enable_hbm_dual_cmd) {
             auto second_cmd = cmd_queue_.GetCommandToIssue();
             if (second_cmd.IsValid()) {
                 if (second_cmd.IsReadWrite() != cmd.IsReadWrite()) {
                     IssueCommand(second_cmd);
+                    if (second_cmd.cmd_type == CommandType::PRECHARGE) {
+                        simple_stats_.Increment("num_ondemand_pres");
+                    }
                     simple_stats_.Increment("hbm_dual_cmds");
                 }
             }
-- 
2.43.0


From ebc65352d4061ba340f39fdcac2fdd6255306db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:50 +0000
Subject: [PATCH 37/45] fix: times in the flit trace were rounded to six digits

---
 rad-sim/sim/noc/radsim_noc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rad-sim/sim/noc/radsim_noc.cpp b/rad-sim/sim/noc/radsim_noc.cpp
index 28ef156..aa2649e 100644
--- a/rad-sim/sim/noc/radsim_noc.cpp
+++ b/rad-sim/sim/noc/radsim_noc.cpp
@@ -301,6 +301,8 @@ multimap<int, int> *radsim_noc::GetEjectedFlitsMap() { return _ejected_flits; }
 void radsim_noc::Tick() {
   // Reset Code
   int noc_cycle = 0;
+  // Times are multiples of 1 ps: trace all of their digits
+  NoCFlitTelemetry::ostream.precision(12);
   wait();
 
   while (true) {
-- 
2.43.0


From 3f346d711dc9c70a473927e3653bdb0f93ff3311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:14 +0000
Subject: [PATCH 38/45] fix: dlrm drivers judged only the last element of each
 output

---
 rad-sim/example-designs/dlrm/dlrm_driver.cpp         | 2 +-
 rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/dlrm_driver.cpp b/rad-sim/example-designs/dlrm/dlrm_driver.cpp
index 1943dee..e6c482f 100644
--- a/rad-sim/example-designs/dlrm/dlrm_driver.cpp
+++ b/rad-sim/example-designs/dlrm/dlrm_driver.cpp
@@ -165,7 +165,7 @@ void dlrm_driver::sink() {
     if (collector_fifo_rdy.read() && dut_output.size() > 0) {
       bool matching = true;
       for (unsigned int e = 0; e < dut_output.size(); e++) {
-        matching = (dut_output[e] == _mlp_outputs[outputs_count][e]);
+        matching &= (dut_output[e] == _mlp_outputs[outputs_count][e]);
       }
       if (!matching) {
         std::cout << "Output " << outputs_count << " on rad " << radsim_design->rad_id << " does not match!\n";
diff --git a/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp b/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp
index 1943dee..e6c482f 100644
--- a/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp
@@ -165,7 +165,7 @@ void dlrm_driver::sink() {
     if (collector_fifo_rdy.read() && dut_output.size() > 0) {
       bool matching = true;
       for (unsigned int e = 0; e < dut_output.size(); e++) {
-        matching = (dut_output[e] == _mlp_outputs[outputs_count][e]);
+        matching &= (dut_output[e] == _mlp_outputs[outputs_count][e]);
       }
       if (!matching) {
         std::cout << "Output " << outputs_count << " on rad " << radsim_design->rad_id << " does not match!\n";
-- 
2.43.0


From 1a247358168b84090932a7ff9d3f4e97d2b4200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:14 +0000
Subject: [PATCH 39/45] fix: dlrm embedding lookup repeated or lost requests
 when the network was slow to accept

---
 .../dlrm/modules/embedding_lookup.cpp         | 36 +++++++++----------
 .../dlrm_two_rad/modules/embedding_lookup.cpp | 36 +++++++++----------
 2 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp b/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp
index a57070e..3e20ec4 100644
--- a/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp
+++ b/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp
@@ -115,6 +115,24 @@ void embedding_lookup::Tick() {
     for (unsigned int ctrl_id = 0; ctrl_id < _num_channels_per_ctrl.size();
          ctrl_id++) {
       for (unsigned int c = 0; c < _num_channels_per_ctrl[ctrl_id]; c++) {
+        // Pop the FIFO if the transaction is accepted
+        if (aximm_req_interface[ch_id].arvalid.read() &&
+            aximm_req_interface[ch_id].arready.read()) {
+          /*if (ctrl_id == 0) {
+            std::cout << "ELU sent address "
+                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
+                      << std::endl;
+            cin.get();
+          }*/
+          _lookup_indecies_fifo[ch_id].pop();
+          _base_addresses_fifo[ch_id].pop();
+          _id_count[ch_id].write(_id_count[ch_id].read() + 1);
+          /*_debug_sent_request_counter++;
+          std::cout << module_name << ": Sent AR transaction "
+                    << _debug_sent_request_counter << " @ channel " << ch_id
+                    << "!" << std::endl;*/
+        }
+
         if (!_lookup_indecies_fifo[ch_id].empty()) {
           uint64_t lookup_index = _lookup_indecies_fifo[ch_id].front();
           uint64_t table_base_addr = _base_addresses_fifo[ch_id].front();
@@ -147,24 +165,6 @@ void embedding_lookup::Tick() {
           aximm_req_interface[ch_id].wvalid.write(false);
         }
 
-        // Pop the FIFO if the transaction is accepted
-        if (aximm_req_interface[ch_id].arvalid.read() &&
-            aximm_req_interface[ch_id].arready.read()) {
-          /*if (ctrl_id == 0) {
-            std::cout << "ELU sent address "
-                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
-                      << std::endl;
-            cin.get();
-          }*/
-          _lookup_indecies_fifo[ch_id].pop();
-          _base_addresses_fifo[ch_id].pop();
-          _id_count[ch_id].write(_id_count[ch_id].read() + 1);
-          /*_debug_sent_request_counter++;
-          std::cout << module_name << ": Sent AR transaction "
-                    << _debug_sent_request_counter << " @ channel " << ch_id
-                    << "!" << std::endl;*/
-        }
-
         // Receiving transactions from AXI-MM NoC
         if (aximm_req_interface[ch_id].rvalid.read() &&
             aximm_req_interface[ch_id].rready.read()) {
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp
index 4f678fa..aa5c619 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp
@@ -116,6 +116,24 @@ void embedding_lookup::Tick() {
     for (unsigned int ctrl_id = 0; ctrl_id < _num_channels_per_ctrl.size();
          ctrl_id++) {
       for (unsigned int c = 0; c < _num_channels_per_ctrl[ctrl_id]; c++) {
+        // Pop the FIFO if the transaction is accepted
+        if (aximm_req_interface[ch_id].arvalid.read() &&
+            aximm_req_interface[ch_id].arready.read()) {
+          /*if (ctrl_id == 0) {
+            std::cout << "ELU sent address "
+                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
+                      << std::endl;
+            cin.get();
+          }*/
+          _lookup_indecies_fifo[ch_id].pop();
+          _base_addresses_fifo[ch_id].pop();
+          _id_count[ch_id].write(_id_count[ch_id].read() + 1);
+          /*_debug_sent_request_counter++;
+          std::cout << module_name << ": Sent AR transaction "
+                    << _debug_sent_request_counter << " @ channel " << ch_id
+                    << "!" << std::endl;*/
+        }
+
         if (!_lookup_indecies_fifo[ch_id].empty()) {
           uint64_t lookup_index = _lookup_indecies_fifo[ch_id].front();
           uint64_t table_base_addr = _base_addresses_fifo[ch_id].front();
@@ -148,24 +166,6 @@ void embedding_lookup::Tick() {
           aximm_req_interface[ch_id].wvalid.write(false);
         }
 
-        // Pop the FIFO if the transaction is accepted
-        if (aximm_req_interface[ch_id].arvalid.read() &&
-            aximm_req_interface[ch_id].arready.read()) {
-          /*if (ctrl_id == 0) {
-            std::cout << "ELU sent address "
-                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
-                      << std::endl;
-            cin.get();
-          }*/
-          _lookup_indecies_fifo[ch_id].pop();
-          _base_addresses_fifo[ch_id].pop();
-          _id_count[ch_id].write(_id_count[ch_id].read() + 1);
-          /*_debug_sent_request_counter++;
-          std::cout << module_name << ": Sent AR transaction "
-                    << _debug_sent_request_counter << " @ channel " << ch_id
-                    << "!" << std::endl;*/
-        }
-
         // Receiving transactions from AXI-MM NoC
         if (aximm_req_interface[ch_id].rvalid.read() &&
             aximm_req_interface[ch_id].rready.read()) {
-- 
2.43.0


From 78f35c3dbbc4d0ce34651ddb8b3cfe8f5ef127a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:14 +0000
Subject: [PATCH 40/45] fix: dlrm deadlocked when memory requests blocked the
 streams they were waiting for

---
 rad-sim/example-designs/dlrm/modules/collector.cpp            | 2 +-
 .../dlrm/modules/custom_feature_interaction.cpp               | 2 +-
 rad-sim/example-designs/dlrm/modules/mvm.cpp                  | 4 ++--
 rad-sim/example-designs/dlrm_two_rad/modules/collector.cpp    | 2 +-
 .../dlrm_two_rad/modules/custom_feature_interaction.cpp       | 2 +-
 rad-sim/example-designs/dlrm_two_rad/modules/mvm.cpp          | 4 ++--
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/modules/collector.cpp b/rad-sim/example-designs/dlrm/modules/collector.cpp
index 448b47e..8bdd2ef 100644
--- a/rad-sim/example-designs/dlrm/modules/collector.cpp
+++ b/rad-sim/example-designs/dlrm/modules/collector.cpp
@@ -61,5 +61,5 @@ void collector::RegisterModuleInfo() {
   _num_noc_axis_master_ports = 0;
 
   port_name = module_name + ".data_collect";
-  RegisterAxisSlavePort(port_name, &rx_interface, DATAW, 0);
+  RegisterAxisSlavePort(port_name, &rx_interface, DATAW, 2);
 }
\ No newline at end of file
diff --git a/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp b/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
index 79522bc..6e62646 100644
--- a/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
@@ -301,6 +301,6 @@ void custom_feature_interaction::RegisterModuleInfo() {
 
   for (unsigned int ch_id = 0; ch_id < _num_output_channels; ch_id++) {
     port_name = module_name + ".axis_interface_" + std::to_string(ch_id);
-    RegisterAxisMasterPort(port_name, &axis_interface[ch_id], DATAW, 0);
+    RegisterAxisMasterPort(port_name, &axis_interface[ch_id], DATAW, 2);
   }
 }
diff --git a/rad-sim/example-designs/dlrm/modules/mvm.cpp b/rad-sim/example-designs/dlrm/modules/mvm.cpp
index a21c839..caa26ac 100644
--- a/rad-sim/example-designs/dlrm/modules/mvm.cpp
+++ b/rad-sim/example-designs/dlrm/modules/mvm.cpp
@@ -595,10 +595,10 @@ void mvm::RegisterModuleInfo() {
   _num_noc_axis_master_ports = 0;
 
   port_name = module_name + ".tx_interface";
-  RegisterAxisMasterPort(port_name, &tx_input_interface, DATAW, 0);
+  RegisterAxisMasterPort(port_name, &tx_input_interface, DATAW, 2);
 
   port_name = module_name + ".rx_interface";
-  RegisterAxisSlavePort(port_name, &rx_input_interface, DATAW, 0);
+  RegisterAxisSlavePort(port_name, &rx_input_interface, DATAW, 2);
 
   // port_name = module_name + ".rx_reduce_interface";
   // RegisterAxisSlavePort(port_name, &rx_reduce_interface, DATAW, 1);
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/collector.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/collector.cpp
index e71ba8e..14a8104 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/collector.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/collector.cpp
@@ -61,5 +61,5 @@ void collector::RegisterModuleInfo() {
   _num_noc_axis_master_ports = 0;
 
   port_name = module_name + ".data_collect";
-  RegisterAxisSlavePort(port_name, &rx_interface, DATAW, 0);
+  RegisterAxisSlavePort(port_name, &rx_interface, DATAW, 2);
 }
\ No newline at end of file
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
index b0f423e..1b98210 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
@@ -309,6 +309,6 @@ void custom_feature_interaction::RegisterModuleInfo() {
 
   for (unsigned int ch_id = 0; ch_id < _num_output_channels; ch_id++) {
     port_name = module_name + ".axis_interface_" + std::to_string(ch_id);
-    RegisterAxisMasterPort(port_name, &axis_interface[ch_id], DATAW, 0);
+    RegisterAxisMasterPort(port_name, &axis_interface[ch_id], DATAW, 2);
   }
 }
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/mvm.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/mvm.cpp
index 82dbac2..822be64 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/mvm.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/mvm.cpp
@@ -600,10 +600,10 @@ void mvm::RegisterModuleInfo() {
   _num_noc_axis_master_ports = 0;
 
   port_name = module_name + ".tx_interface";
-  RegisterAxisMasterPort(port_name, &tx_input_interface, DATAW, 0);
+  RegisterAxisMasterPort(port_name, &tx_input_interface, DATAW, 2);
 
   port_name = module_name + ".rx_interface";
-  RegisterAxisSlavePort(port_name, &rx_input_interface, DATAW, 0);
+  RegisterAxisSlavePort(port_name, &rx_input_interface, DATAW, 2);
 
   // port_name = module_name + ".rx_reduce_interface";
   // RegisterAxisSlavePort(port_name, &rx_reduce_interface, DATAW, 1);
-- 
2.43.0


From 073dedf04172e6d09f555f058024bbf34f25b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:36 +0000
Subject: [PATCH 41/45] fix: anynet stored the latency of a node link in the
 router link table

---
 rad-sim/sim/noc/booksim/networks/anynet.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rad-sim/sim/noc/booksim/networks/anynet.cpp b/rad-sim/sim/noc/booksim/networks/anynet.cpp
index 5651bff..91f5c4a 100644
--- a/rad-sim/sim/noc/booksim/networks/anynet.cpp
+++ b/rad-sim/sim/noc/booksim/networks/anynet.cpp
@@ -410,7 +410,11 @@ void AnyNet::readFile(){
 	  //ignore
 	} else {
 	  link_weight= atoi(temp.c_str());
-	  router_list[head_type][head_id][body_id].second=link_weight;
+	  if(head_type==NODE){
+	    router_list[NODE][body_id][head_id].second=link_weight;
+	  } else {
+	    router_list[body_type][head_id][body_id].second=link_weight;
+	  }
 	  break;
 	}
 	//intentionally letting it flow through
-- 
2.43.0


From e77036f164ea489c9539d2297a36ec02d4caa597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:36 +0000
Subject: [PATCH 42/45] fix: anynet made a router of every node that starts a
 line of the network file

---
 rad-sim/sim/noc/booksim/networks/anynet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/networks/anynet.cpp b/rad-sim/sim/noc/booksim/networks/anynet.cpp
index 91f5c4a..464be1d 100644
--- a/rad-sim/sim/noc/booksim/networks/anynet.cpp
+++ b/rad-sim/sim/noc/booksim/networks/anynet.cpp
@@ -395,10 +395,10 @@ void AnyNet::readFile(){
 	head_id = atoi(temp.c_str());
 
 	//intialize router structures
-	if(router_list[NODE].count(head_id) == 0){
+	if(head_type==ROUTER && router_list[NODE].count(head_id) == 0){
 	  router_list[NODE][head_id] = map<int, pair<int,int> >();
 	}
-	if(router_list[ROUTER].count(head_id) == 0){
+	if(head_type==ROUTER && router_list[ROUTER].count(head_id) == 0){
 	  router_list[ROUTER][head_id] = map<int, pair<int,int> >();
 	}  
 
-- 
2.43.0


From 5e30e60b673e6a449a1ba4e469ed3d818861f0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:30 +0000
Subject: [PATCH 43/45] fix: min_adapt routing deadlocked on full adaptive
 channels

A packet that holds a full adaptive virtual channel has given up the escape
channel, so packets could wait for each other in a circle.  Full channels are
now treated as busy during allocation for this routing function.
---
 rad-sim/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index b4a884c..e9a349c 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -193,6 +193,9 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
             booksim_config_file.write("sw_allocator = " + booksim_params[curr_config_num]["noc_sw_allocator"][noc_idx] + ";\n")
             booksim_config_file.write("alloc_iters = 1;\n")
             booksim_config_file.write("wait_for_tail_credit = 0;\n")
+            if booksim_params[curr_config_num]["noc_routing_func"][noc_idx] == "min_adapt":
+                # Packets waiting for a full adaptive VC can no longer take the escape VC and would deadlock
+                booksim_config_file.write("vc_busy_when_full = 1;\n")
             booksim_config_file.write("credit_delay = " + str(booksim_params[curr_config_num]["noc_credit_delay"][noc_idx]) + ";\n")
             booksim_config_file.write("routing_delay = " + str(booksim_params[curr_config_num]["noc_routing_delay"][noc_idx]) + ";\n")
             booksim_config_file.write("vc_alloc_delay = " + str(booksim_params[curr_config_num]["noc_vc_alloc_delay"][noc_idx]) + ";\n")
-- 
2.43.0


From 4c00d68aa466dabfb9fe677c84fb68d75a1929f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:01 +0000
Subject: [PATCH 44/45] fix: example designs deleted a clock pointer that was
 never set

sysclk was never assigned, so deleting it at the end of the simulation handed
an arbitrary value to operator delete.  Nothing else used it.
---
 rad-sim/example-designs/add/add_system.cpp                       | 1 -
 rad-sim/example-designs/add/add_system.hpp                       | 1 -
 .../aximm_hello_world/aximm_hello_world_system.cpp               | 1 -
 .../aximm_hello_world/aximm_hello_world_system.hpp               | 1 -
 rad-sim/example-designs/mlp/mlp_system.cpp                       | 1 -
 rad-sim/example-designs/mlp/mlp_system.hpp                       | 1 -
 rad-sim/example-designs/mlp_int8/mlp_int8_system.cpp             | 1 -
 rad-sim/example-designs/mlp_int8/mlp_int8_system.hpp             | 1 -
 rad-sim/example-designs/mult/mult_system.cpp                     | 1 -
 rad-sim/example-designs/mult/mult_system.hpp                     | 1 -
 rad-sim/example-designs/rtl_add/rtl_add_system.cpp               | 1 -
 rad-sim/example-designs/rtl_add/rtl_add_system.hpp               | 1 -
 rad-sim/example-designs/rtl_aximm/rtl_aximm_system.cpp           | 1 -
 rad-sim/example-designs/rtl_aximm/rtl_aximm_system.hpp           | 1 -
 14 files changed, 14 deletions(-)

diff --git a/rad-sim/example-designs/add/add_system.cpp b/rad-sim/example-designs/add/add_system.cpp
index 5a32d68..37b6855 100644
--- a/rad-sim/example-designs/add/add_system.cpp
+++ b/rad-sim/example-designs/add/add_system.cpp
@@ -30,5 +30,4 @@ add_system::add_system(const sc_module_name &name, sc_clock *driver_clk_sig, RAD
 add_system::~add_system() {
   delete driver_inst;
   delete dut_inst;
-  delete sysclk;
 }
\ No newline at end of file
diff --git a/rad-sim/example-designs/add/add_system.hpp b/rad-sim/example-designs/add/add_system.hpp
index ace1ecb..7a9a17c 100644
--- a/rad-sim/example-designs/add/add_system.hpp
+++ b/rad-sim/example-designs/add/add_system.hpp
@@ -17,7 +17,6 @@ private:
 
 public:
   sc_signal<bool> rst_sig;
-  sc_clock *sysclk;
   add_driver *driver_inst;
   add_top *dut_inst;
 
diff --git a/rad-sim/example-designs/aximm_hello_world/aximm_hello_world_system.cpp b/rad-sim/example-designs/aximm_hello_world/aximm_hello_world_system.cpp
index 1c6a3b2..8da18e7 100644
--- a/rad-sim/example-designs/aximm_hello_world/aximm_hello_world_system.cpp
+++ b/rad-sim/example-designs/aximm_hello_world/aximm_hello_world_system.cpp
@@ -29,5 +29,4 @@ aximm_hello_world_system::aximm_hello_world_system(const sc_module_name &name,
 aximm_hello_world_system::~aximm_hello_world_system() {
   delete driver_inst;
   delete dut_inst;
-  delete sysclk;
 }
\ No newline at end of file
diff --git a/rad-sim/example-designs/aximm_hello_world/aximm_hello_world_system.hpp b/rad-sim/example-designs/aximm_hello_world/aximm_hello_world_system.hpp
index 774588b..1951872 100644
--- a/rad-sim/example-designs/aximm_hello_world/aximm_hello_world_system.hpp
+++ b/rad-sim/example-designs/aximm_hello_world/aximm_hello_world_system.hpp
@@ -16,7 +16,6 @@ private:
 
 public:
   sc_signal<bool> rst_sig;
-  sc_clock *sysclk;
   aximm_hello_world_driver *driver_inst;
   aximm_hello_world_top *dut_inst;
 
diff --git a/rad-sim/example-designs/mlp/mlp_system.cpp b/rad-sim/example-designs/mlp/mlp_system.cpp
index 66be09f..36fdd4e 100644
--- a/rad-sim/example-designs/mlp/mlp_system.cpp
+++ b/rad-sim/example-designs/mlp/mlp_system.cpp
@@ -56,5 +56,4 @@ mlp_system::mlp_system(const sc_module_name& name, sc_clock* driver_clk_sig, RAD
 mlp_system::~mlp_system() {
   delete mlp_driver_inst;
   delete mlp_inst;
-  delete sysclk;
 }
\ No newline at end of file
diff --git a/rad-sim/example-designs/mlp/mlp_system.hpp b/rad-sim/example-designs/mlp/mlp_system.hpp
index 50be2b0..a8cc21a 100644
--- a/rad-sim/example-designs/mlp/mlp_system.hpp
+++ b/rad-sim/example-designs/mlp/mlp_system.hpp
@@ -19,7 +19,6 @@ class mlp_system : public RADSimDesignSystem {
 
  public:
   sc_signal<bool> rst_sig;
-  sc_clock* sysclk;
   mlp_driver* mlp_driver_inst;
   mlp_top* mlp_inst;
 
diff --git a/rad-sim/example-designs/mlp_int8/mlp_int8_system.cpp b/rad-sim/example-designs/mlp_int8/mlp_int8_system.cpp
index 7776e50..b95999e 100644
--- a/rad-sim/example-designs/mlp_int8/mlp_int8_system.cpp
+++ b/rad-sim/example-designs/mlp_int8/mlp_int8_system.cpp
@@ -112,5 +112,4 @@ mlp_int8_system::mlp_int8_system(const sc_module_name& name, sc_clock* driver_cl
 mlp_int8_system::~mlp_int8_system() {
   delete mlp_driver_inst;
   delete mlp_inst;
-  delete sysclk;
 }
\ No newline at end of file
diff --git a/rad-sim/example-designs/mlp_int8/mlp_int8_system.hpp b/rad-sim/example-designs/mlp_int8/mlp_int8_system.hpp
index 469a4af..412d4cd 100644
--- a/rad-sim/example-designs/mlp_int8/mlp_int8_system.hpp
+++ b/rad-sim/example-designs/mlp_int8/mlp_int8_system.hpp
@@ -48,7 +48,6 @@ class mlp_int8_system : public RADSimDesignSystem {
 
  public:
   sc_signal<bool> rst_sig;
-  sc_clock* sysclk;
   mlp_driver* mlp_driver_inst;
   mlp_top* mlp_inst;
 
diff --git a/rad-sim/example-designs/mult/mult_system.cpp b/rad-sim/example-designs/mult/mult_system.cpp
index 0984d6e..7dfa141 100644
--- a/rad-sim/example-designs/mult/mult_system.cpp
+++ b/rad-sim/example-designs/mult/mult_system.cpp
@@ -31,5 +31,4 @@ mult_system::mult_system(const sc_module_name &name, sc_clock *driver_clk_sig, R
 mult_system::~mult_system() {
   delete driver_inst;
   delete dut_inst;
-  delete sysclk;
 }
\ No newline at end of file
diff --git a/rad-sim/example-designs/mult/mult_system.hpp b/rad-sim/example-designs/mult/mult_system.hpp
index f3026b3..1c2e998 100644
--- a/rad-sim/example-designs/mult/mult_system.hpp
+++ b/rad-sim/example-designs/mult/mult_system.hpp
@@ -17,7 +17,6 @@ private:
 
 public:
   sc_signal<bool> rst_sig;
-  sc_clock *sysclk;
   mult_driver *driver_inst;
   mult_top *dut_inst;
 
diff --git a/rad-sim/example-designs/rtl_add/rtl_add_system.cpp b/rad-sim/example-designs/rtl_add/rtl_add_system.cpp
index dcb904f..3db23cf 100644
--- a/rad-sim/example-designs/rtl_add/rtl_add_system.cpp
+++ b/rad-sim/example-designs/rtl_add/rtl_add_system.cpp
@@ -28,5 +28,4 @@ rtl_add_system::rtl_add_system(const sc_module_name &name, sc_clock *driver_clk_
 rtl_add_system::~rtl_add_system() {
   delete driver_inst;
   delete dut_inst;
-  delete sysclk;
 }
\ No newline at end of file
diff --git a/rad-sim/example-designs/rtl_add/rtl_add_system.hpp b/rad-sim/example-designs/rtl_add/rtl_add_system.hpp
index 484cf2d..1e11828 100644
--- a/rad-sim/example-designs/rtl_add/rtl_add_system.hpp
+++ b/rad-sim/example-designs/rtl_add/rtl_add_system.hpp
@@ -16,7 +16,6 @@ private:
 
 public:
   sc_signal<bool> rst_sig;
-  sc_clock *sysclk;
   rtl_add_driver *driver_inst;
   rtl_add_top *dut_inst;
 
diff --git a/rad-sim/example-designs/rtl_aximm/rtl_aximm_system.cpp b/rad-sim/example-designs/rtl_aximm/rtl_aximm_system.cpp
index 27f5ec0..5d26cbd 100644
--- a/rad-sim/example-designs/rtl_aximm/rtl_aximm_system.cpp
+++ b/rad-sim/example-designs/rtl_aximm/rtl_aximm_system.cpp
@@ -25,5 +25,4 @@ rtl_aximm_system::rtl_aximm_system(const sc_module_name &name, sc_clock *driver_
 rtl_aximm_system::~rtl_aximm_system() {
   delete driver_inst;
   delete dut_inst;
-  delete sysclk;
 }
\ No newline at end of file
diff --git a/rad-sim/example-designs/rtl_aximm/rtl_aximm_system.hpp b/rad-sim/example-designs/rtl_aximm/rtl_aximm_system.hpp
index 72dca33..93f939e 100644
--- a/rad-sim/example-designs/rtl_aximm/rtl_aximm_system.hpp
+++ b/rad-sim/example-designs/rtl_aximm/rtl_aximm_system.hpp
@@ -16,7 +16,6 @@ private:
 
 public:
   sc_signal<bool> rst_sig;
-  sc_clock *sysclk;
   rtl_aximm_driver *driver_inst;
   rtl_aximm_top *dut_inst;
 
-- 
2.43.0


From 6b30e2fb7f8a0934c5d88e521335ffbe05a99ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:12 +0000
Subject: [PATCH 45/45] fix: memory controller looked at the front of an empty
 request queue

After the response to the last outstanding read, the loop that releases
reordered responses read the front of an empty queue.
---
 rad-sim/sim/dram/mem_controller.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index 0633712..484a5ef 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -198,6 +198,8 @@ void mem_controller::MemReadCallback(uint64_t addr) {
 
     do {
       flag = false;
+      if (_outstanding_read_requests[ch_id].empty())
+        break;
       uint64_t front_addr =
           std::get<0>(_outstanding_read_requests[ch_id].front());
       if (_out_of_order_read_requests[ch_id].find(front_addr) !=
-- 
2.43.0

