From de5e855f57a99e1550b710b86f8cc3c17341db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 01/24] fix: store traditional-graph edge weights at the edge's
 CSR position

Edges of traditional graphs are numbered by their position in edge_list,
but the weights were stored in input order, so weight(edge) returned the
weight of another edge whenever the input was not grouped by source.
---
 agi/agiConstruct.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index ee53d5c..e10c22b 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -221,6 +221,7 @@ namespace agi {
         ghost_unmap = new gid_t[num_ghost_verts];
     }
 
+    edge_weights[t] = new wgt_t[edge_ids.size()];
     //Loop through edges again to build the edge lists
     for (lid_t i=0;i<(lid_t)edge_ids.size();i++) {
       for (lid_t j=pin_degree_list[t][i];j<pin_degree_list[t][i+1];j++) {
@@ -239,19 +240,22 @@ namespace agi {
           if (v>=num_local_verts){
             ghost_unmap[v-num_local_verts] = pins_to_verts[j];
           }
-          if (u<num_local_verts)
+          if (u<num_local_verts) {
+            //In traditional mode the edges are numbered by their position in the edge_list
+            if (e_weights.size()>0)
+              edge_weights[t][temp_counts[u]] = e_weights[i];
             edge_list[t][temp_counts[u]++] = v;
+          }
         }
       }
     }
     free(temp_counts);
 
     //Set the weights of the edges
-    edge_weights[t] = new wgt_t[edge_ids.size()];
     if (e_weights.size()==0)
       for (lid_t i=0;i<(lid_t)edge_ids.size();i++) 
         edge_weights[t][i] = 1;
-    else
+    else if (isHyperGraph)
       for (lid_t i=0;i<(lid_t)e_weights.size();i++)
         edge_weights[t][i] = e_weights[i];
 
@@ -329,6 +333,7 @@ namespace agi {
         ghost_unmap = new gid_t[num_ghost_verts];
     }
 
+    edge_weights[t] = new wgt_t[num_edges];
     for (lid_t i=0;i<num_edges;i++) {
       for (lid_t j=pin_degree_list[t][i];j<pin_degree_list[t][i+1];j++) {
         lid_t u = pin_list[t][j];
@@ -344,19 +349,22 @@ namespace agi {
           if (v>=num_local_verts){
             ghost_unmap[v-num_local_verts] = pins_to_verts[j];
           }
-          if (u<num_local_verts)
+          if (u<num_local_verts) {
+            //In traditional mode the edges are numbered by their position in the edge_list
+            if (e_weights)
+              edge_weights[t][temp_counts[u]] = e_weights[i];
             edge_list[t][temp_counts[u]++] = v;
+          }
         }
       }
     }
     free(temp_counts);
 
     //Set the weights of the edges
-    edge_weights[t] = new wgt_t[num_edges];
     if (!e_weights)
       for (lid_t i=0;i<num_edges;i++) 
         edge_weights[t][i] = 1;
-    else
+    else if (isHyperGraph)
       for (lid_t i=0;i<num_edges;i++)
         edge_weights[t][i] = e_weights[i];
 
-- 
2.43.0


From cff5a502dfe1b251cf64037828e923b80c8eac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 02/24] fix: migrate the edges of every type, not those of type
 0 once per type

---
 agi/agiMigrate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index ab73a41..8b12939 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -77,7 +77,7 @@ namespace agi {
       VertexVector::iterator itr;
       //loop through the vertices being sent
       for (itr = verts.begin();itr!=verts.end();itr++) {
-        GraphIterator* gitr =g->adjacent(*itr);
+        GraphIterator* gitr =g->adjacent(*itr,t);
         GraphEdge* e;
         GraphEdge* old=NULL;
         while ((g->iterate(gitr))) {
-- 
2.43.0


From de56f7c1cf1b056e5af42677d26d62fe3d7e5729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 03/24] fix: tell every part holding a ghost of a moving vertex
 its new owner

---
 agi/agiMigrate.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index 8b12939..bee3b28 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -25,22 +25,30 @@ namespace agi {
   }
 
   void Ngraph::updateGhostOwners(Migration* plan) {
+    //Ask the owner of each ghost vertex
     PCU_Comm_Begin();
-    Migration::iterator itr;
-    for (itr = plan->begin();itr!=plan->end();itr++) {
-      GraphVertex* v = *itr;
+    GhostIterator* gitr = beginGhosts();
+    GraphVertex* v;
+    while ((v = iterate(gitr))) {
       gid_t gid = globalID(v);
-      part_t toSend = plan->get(v);
-      GraphIterator* gitr = adjacent(v);
-      GraphVertex* other;
-      while ((other=iterate(gitr))) {
-        part_t own = owner(other);
-        if (own!=PCU_Comm_Self()) {
-          PCU_COMM_PACK(own,gid);
-          PCU_COMM_PACK(own,toSend);
-        }
-      }
-      destroy(gitr);
+      PCU_COMM_PACK(owner(v),gid);
+    }
+    PCU_Comm_Send();
+    std::vector<std::pair<part_t,GraphVertex*> > moving;
+    while (PCU_Comm_Receive()) {
+      gid_t gid;
+      PCU_COMM_UNPACK(gid);
+      v = findGID(gid);
+      if (plan->has(v))
+        moving.push_back(std::make_pair(PCU_Comm_Sender(),v));
+    }
+    //Reply with the new owner of the vertices that move
+    PCU_Comm_Begin();
+    for (size_t i=0;i<moving.size();i++) {
+      gid_t gid = globalID(moving[i].second);
+      part_t toSend = plan->get(moving[i].second);
+      PCU_COMM_PACK(moving[i].first,gid);
+      PCU_COMM_PACK(moving[i].first,toSend);
     }
     PCU_Comm_Send();
     while (PCU_Comm_Receive()) {
-- 
2.43.0


From c19c8894af3c65252f4c80a9540731f83c5ea9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 04/24] fix: keep traditional edges whose target migrates but
 whose source stays

---
 agi/agiMigrate.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index bee3b28..fcc1a70 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -133,12 +133,19 @@ namespace agi {
     EdgeIterator* itr = g->begin(t);
     GraphEdge* e;
     while ((e = g->iterate(itr))) {
-      agi::PinIterator* pitr = g->pins(e);
-      agi::GraphVertex* end;
-      while ((end=g->iterate(pitr)))
-        if (plan->has(end))
-          break;
-      g->destroy(pitr);
+      agi::PinIterator* pitr;
+      agi::GraphVertex* end = NULL;
+      if (g->isHyper()) {
+        pitr = g->pins(e);
+        while ((end=g->iterate(pitr)))
+          if (plan->has(end))
+            break;
+        g->destroy(pitr);
+      }
+      else if (plan->has(g->u(e))) {
+        //In traditional mode an edge stays or moves with its source vertex
+        end = g->u(e);
+      }
       if (!end) {
         //Add the Edge
         gid_t gid = g->globalID(e);
@@ -150,7 +157,7 @@ namespace agi {
         while ((end=g->iterate(pitr))) {
           gid_t other_gid = g->globalID(end);
           pins.push_back(other_gid);
-          part_t owner = g->owner(end);
+          part_t owner = plan->has(end) ? plan->get(end) : g->owner(end);
 
           if (owner!=PCU_Comm_Self()) 
             ghost_owners[other_gid] = owner;          
-- 
2.43.0


From 92088dfec157164836a8a89a33bd9fcdd11913a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 05/24] fix: add received weight to the vertex it is addressed
 to

---
 agi/agiWeightMigrate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiWeightMigrate.cpp b/agi/agiWeightMigrate.cpp
index dd8c677..590518d 100644
--- a/agi/agiWeightMigrate.cpp
+++ b/agi/agiWeightMigrate.cpp
@@ -44,7 +44,7 @@ namespace agi {
       PCU_COMM_UNPACK(gid);
       PCU_COMM_UNPACK(w);
       agi::GraphVertex* mine = findGID(gid);
-      v_weights[numLocalVtxs() - 1]+=w;
+      v_weights[localID(mine)]+=w;
       wp_map[gid][other_gid] -= w;
     }
 
-- 
2.43.0


From 1b934f96c005350b0fe36451d5c9f334c541ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 06/24] fix: reset the planned total when a weight migration
 plan is cleared

---
 agi/agiWeightMigration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agi/agiWeightMigration.cpp b/agi/agiWeightMigration.cpp
index 3f12858..013a449 100644
--- a/agi/agiWeightMigration.cpp
+++ b/agi/agiWeightMigration.cpp
@@ -30,6 +30,7 @@ namespace agi {
 
   void WeightMigration::clear() {
     sending.clear();
+    s = 0;
   }
 
   WeightMigration::iterator WeightMigration::begin() const {
-- 
2.43.0


From db84c2b1840a78b8a863e5870231a9258052fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 07/24] fix: build second-adjacency tables from the edges of
 the requested type

---
 agi/agiConstruct.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index e10c22b..4924f39 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -638,7 +638,7 @@ namespace agi {
     while ((v = iterate(vitr))) {
       int count = 0;
       std::unordered_set<GraphVertex*> unique_adj;
-      GraphIterator* gitr = adjacent(v);
+      GraphIterator* gitr = adjacent(v,t);
       GraphVertex* other;
       while ((other = iterate(gitr))) {
         count++;
@@ -659,7 +659,7 @@ namespace agi {
     //Populate the adjacency list by repeating the operation
     while ((v = iterate(vitr))) {
       std::unordered_set<GraphVertex*> unique_adj;
-      GraphIterator* gitr = adjacent(v);
+      GraphIterator* gitr = adjacent(v,t);
       GraphVertex* other;
       while ((other = iterate(gitr))) {
         if (compress)
@@ -697,7 +697,7 @@ namespace agi {
         if (owner(v)!=PCU_Comm_Self())
           continue;
         GraphEdge* other;
-        EdgeIterator* eitr2 = edges(v);
+        EdgeIterator* eitr2 = edges(v,t);
         while ((other = iterate(eitr2))) {
           count++;
           unique_adj.insert(other);
@@ -726,7 +726,7 @@ namespace agi {
         if (owner(v)!=PCU_Comm_Self())
           continue;
         GraphEdge* other;
-        EdgeIterator* eitr2 = edges(v);
+        EdgeIterator* eitr2 = edges(v,t);
         while ((other = iterate(eitr2))) {
           if (compress)
             unique_adj.insert(other);
-- 
2.43.0


From 0d84f58deba628f7285fb728c1a40bf61d1c0e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 08/24] fix: keep the edge type when a second-adjacency
 iterator advances

---
 agi/agiIterate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agi/agiIterate.cpp b/agi/agiIterate.cpp
index e6c5d84..52c3201 100644
--- a/agi/agiIterate.cpp
+++ b/agi/agiIterate.cpp
@@ -52,7 +52,7 @@ namespace agi {
     else
       index = vev_lists[type][id];
     id*=num_types;
-    id+=num_types;
+    id+=num_types+type;
     vevItr = reinterpret_cast<VEVIterator*>(toPtr(id+1));
     return reinterpret_cast<GraphVertex*>(toPtr(index+1));
   }
@@ -122,7 +122,7 @@ namespace agi {
     else
       index = eve_lists[type][id]*num_types+type;
     id*=num_types;
-    id+=num_types;
+    id+=num_types+type;
     eveItr = reinterpret_cast<EVEIterator*>(toPtr(id+1));
     return reinterpret_cast<GraphEdge*>(toPtr(index+1));
   }
-- 
2.43.0


From 1351a2838b9314f69f20f3be9cbfdc67ebb46035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 09/24] fix: create ghost weights when ghosts are given as
 arrays

---
 agi/agiConstruct.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 4924f39..4078d0a 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -473,6 +473,11 @@ namespace agi {
         num_global_pins[t] = 2*num_global_edges[t];
       }
     }
+
+    //Create the ghost weights
+    if (PCU_Comm_Peers() > 1)
+      ghost_weights = createDoubleGhostTag(weightTag);
+
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
-- 
2.43.0


From 37ad48b7489dc6965fe4e226ba6f08535a641547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 10/24] fix: ignore listed vertices that are not ghosts instead
 of mapping them to vertex 0

---
 agi/agiConstruct.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 4078d0a..eddf926 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -439,11 +439,10 @@ namespace agi {
     if (num_ghost_verts>0)
       owners = new part_t[num_ghost_verts];
     for (lid_t i = 0;i<num_ghosts;i++) {
-      gid_t v = vert_ids[i];
-      lid_t lid = vtx_mapping[v]-num_local_verts;
-      if (lid<0)
+      map_t::iterator itr = vtx_mapping.find(vert_ids[i]);
+      if (itr==vtx_mapping.end() || itr->second<num_local_verts)
         continue;
-      owners[lid] = owns[i];
+      owners[itr->second-num_local_verts] = owns[i];
     }
 
     for (etype t = 0;t<num_types;t++)  {
-- 
2.43.0


From 19c5bdcee0e37912afa7b898db941e8ea7f1173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 11/24] fix: seed the distance queue of a part without ghosts
 with an edge that exists

---
 partition/Diffusive/src/engpar_queue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index 8b1bf82..f6f2fa3 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -255,9 +255,9 @@ namespace engpar {
     //Setup Inputs for first BFS traversal
     Inputs* in1 = new Inputs;
     in1->seeds = new agi::lid_t[pg->num_local_edges[t]];
-    //If run in serial use edge 2 for the seed
+    //If run in serial use the first edge for the seed
     if (g->numGhostVtxs()==0)
-       in1->seeds[in1->numSeeds++]=2;
+       in1->seeds[in1->numSeeds++]=0;
     //Otherwise use all edges that are shared across part boundaries
     else if (pg->isHyperGraph) {
       for (agi::lid_t i=0;i<pg->num_local_edges[t];i++) {
-- 
2.43.0


From c59c66115737a56a350e5791cc6422c56ba08f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:38 +0000
Subject: [PATCH 12/24] fix: number migration timers by their position, not one
 past it

---
 agi/agiMigrationTimers.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agi/agiMigrationTimers.cpp b/agi/agiMigrationTimers.cpp
index 4c79f4f..e31d412 100644
--- a/agi/agiMigrationTimers.cpp
+++ b/agi/agiMigrationTimers.cpp
@@ -15,12 +15,11 @@ namespace agi {
   }
 
   void MigrationTimers::addTimer(std::string name) {
-    int idx = nameToIdx.size()+1;
+    int idx = times.size();
     nameToIdx[name] = idx;
     names.push_back(name);
     counts.push_back(0);
     times.push_back(0);
-    times[idx] = 0; // valgrind does not think times[idx] was initialized...
   }
 
   void MigrationTimers::update(std::string name, double val) {
-- 
2.43.0


From 864ba63c9cdc502f85100c94a442f2a068df0793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:38 +0000
Subject: [PATCH 13/24] fix: drop the unused cavity size histogram that large
 cavities overflowed

---
 partition/Diffusive/src/engpar_selector.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index c890e38..0b4b95f 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -28,16 +28,12 @@ namespace engpar {
   
   void Selector::constructCavities() {
     q->startIteration();
-    int cav_sizes[100];
-    for (int i =0; i < 100; ++i)
-      cav_sizes[i] = 0;
     Queue::iterator itr;
     for (itr = q->begin();itr!=q->end();itr++) {
       Cavity cav;
       getCavity(g, q->get(itr), cav);
       cavities.insert(std::make_pair(q->get(itr),cav));
       q->addElement(q->get(itr));
-      cav_sizes[cav.size()]++;
     }
   }
   
-- 
2.43.0


From 1689cadd34feafdf777938f67186c8bbb57026f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:38 +0000
Subject: [PATCH 14/24] fix: hold the weights of any number of completed
 criteria when trimming a plan

---
 partition/Diffusive/src/engpar_selector.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index 0b4b95f..04a678e 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -269,11 +269,10 @@ namespace engpar {
   }
   struct Migr {
     Migr(int i) :
-      id(i), edge_types(0) {}
-    void addWeight(double w) {ws[edge_types++]=w;}
+      id(i) {}
+    void addWeight(double w) {ws.push_back(w);}
     int id;
-    double ws[5];
-    int edge_types;
+    std::vector<double> ws;
   };
   struct CompareMigr {
     //sort by part first completed edge type weights
-- 
2.43.0


From d1d257f92d77ffa623571f6a823a5f58849b2bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:38 +0000
Subject: [PATCH 15/24] fix: leave cavities without a neighbouring part in
 place

---
 partition/Diffusive/src/engpar_selector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index 04a678e..fdd93f2 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -229,7 +229,8 @@ namespace engpar {
       Cavity& cav = cavities[q->get(itr)];
       Peers peers;
       getCavityPeers(g,plan,cav,peers);
-      if (isPartiallyConnected(g,in->connectivityType,in->minConnectivity,plan,cav)) {
+      if (!peers.empty() &&
+          isPartiallyConnected(g,in->connectivityType,in->minConnectivity,plan,cav)) {
         addCavity(g,cav,*peers.begin(),plan,target_dimension);
       }
     }
-- 
2.43.0


From 90f4985c1d8356e219500485fd157d98bdebb3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 16/24] fix: average every value of a partition evaluation

---
 partition/engpar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index 03d2ed8..7930add 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -97,7 +97,7 @@ namespace engpar {
     empty = PCU_Add_Int(empty);
     delete [] my_vals;
     if (!PCU_Comm_Self()) {
-      for (int i=0;i<5+g->numEdgeTypes();i++) {
+      for (int i=0;i<num_vals;i++) {
         avg[i] = total[i]/PCU_Comm_Peers();
       }
       char prefix[100];
-- 
2.43.0


From 268ebb740705eff92cc3cdcbce901106423a13dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 17/24] fix: an empty part has no disconnected components, not
 minus one

---
 partition/engpar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index 7930add..4365d91 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -48,7 +48,7 @@ namespace engpar {
     }
 
     g->destroyTag(visited);
-    return dis-1;
+    return dis > 0 ? dis-1 : 0;
   }
 
   void evaluatePartition(agi::Ngraph* g,const char* name) {
-- 
2.43.0


From dfed52aa4738399db663b9af06997994900c9a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 18/24] fix: keep the label of a partition evaluation within
 its buffers

---
 partition/engpar.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index 4365d91..c103c10 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -101,7 +101,7 @@ namespace engpar {
         avg[i] = total[i]/PCU_Comm_Peers();
       }
       char prefix[100];
-      sprintf(prefix,"PARTITION %s",name);
+      snprintf(prefix,sizeof(prefix),"PARTITION %s",name);
       EnGPar_Status_Message("%s: Empty Parts: %d\n",prefix,empty);
       EnGPar_Status_Message("%s: Disconnected Components: <max,tot> %.3f %.3f\n",
                             prefix,max[0],total[0]);
@@ -112,8 +112,8 @@ namespace engpar {
       EnGPar_Status_Message("%s: Total Vertex: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",
                             prefix,max[3],min[3],avg[3],max[3]/avg[3]);
       for (int i=0;i<g->numEdgeTypes();i++) {
-        char edge_name[30];
-        sprintf(edge_name,"%s: Edges type %d",prefix,i);
+        char edge_name[130];
+        snprintf(edge_name,sizeof(edge_name),"%s: Edges type %d",prefix,i);
         EnGPar_Status_Message("%s: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",edge_name,
                               max[4+i*2],min[4+i*2],avg[4+i*2],max[4+i*2]/avg[4+i*2]);
         EnGPar_Status_Message("%s Cut: <max,tot> %.3f %.3f\n", edge_name,
-- 
2.43.0


From 7dfb5b1da525d20b9dc343ec6c1384aca7264abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 19/24] fix: hand the local partitioner the edges of parts
 other than the first

---
 partition/Multilevel/engpar_parmetis.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/partition/Multilevel/engpar_parmetis.cpp b/partition/Multilevel/engpar_parmetis.cpp
index f97764b..547da93 100644
--- a/partition/Multilevel/engpar_parmetis.cpp
+++ b/partition/Multilevel/engpar_parmetis.cpp
@@ -58,7 +58,7 @@ namespace engpar {
           if (other==vtx)
             continue;
           agi::part_t owner = g->owner(other);
-          if (!isLocal || owner ==input->self)
+          if (!isLocal || g->localID(other) < g->numLocalVtxs())
             neighbors[other]=1;
           if (!isLocal)
             res.insert(owner);
@@ -109,8 +109,8 @@ namespace engpar {
       g->destroy(gitr);
       for (VertexSet::iterator vsItr = neighbors.begin(); vsItr != neighbors.end(); vsItr++) {
         agi::GraphVertex* other = vsItr->first;
-        if (g->owner(other)==input->self) {
-          agi::lid_t lidv = g->localID(other);
+        agi::lid_t lidv = g->localID(other);
+        if (lidv < g->numLocalVtxs()) {
           adjncy[deg] = gids[lidv]; 
           ewgts[deg++] = vsItr->second;
         }
-- 
2.43.0


From a67199aebfa8d56c2dcb2ac5c99728a83916bffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 20/24] fix: tell Zoltan the number of pins in the edge lists
 it is given

---
 partition/Multilevel/engpar_zoltan.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/partition/Multilevel/engpar_zoltan.cpp b/partition/Multilevel/engpar_zoltan.cpp
index cb5dfc4..20690a0 100644
--- a/partition/Multilevel/engpar_zoltan.cpp
+++ b/partition/Multilevel/engpar_zoltan.cpp
@@ -122,8 +122,11 @@ namespace engpar {
   void numHyperedges(void* data, int* numVtxs, int* numPins, int* format, int* ierr) {
     agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
     *numVtxs = g->numLocalVtxs();
-    //TODO: this number is inaccurate in parallel
-    *numPins = g->numLocalPins();
+    *numPins = 0;
+    agi::GraphVertex* v;
+    agi::VertexIterator* vitr = g->begin();
+    while ((v = g->iterate(vitr)))
+      *numPins += g->degree(v);
     *format = ZOLTAN_COMPRESSED_VERTEX;
     *ierr = ZOLTAN_OK;
   }
-- 
2.43.0


From fe489d438a79f1a7f7cc05ebb06a0a4f043c0be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 21/24] fix: give Zoltan the owners of ghosts as ranks of its
 own communicator

---
 partition/Multilevel/engpar_split.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/partition/Multilevel/engpar_split.cpp b/partition/Multilevel/engpar_split.cpp
index 969bf04..7b6c231 100644
--- a/partition/Multilevel/engpar_split.cpp
+++ b/partition/Multilevel/engpar_split.cpp
@@ -29,6 +29,9 @@ namespace engpar {
     agi::Migration* plan = NULL;
     inp->self = PCU_Comm_Self();
     if (method == ZOLTAN_PHG) {
+      //Zoltan works with the ranks of the large communicator
+      if (inp->isOriginal)
+        expandParts(inp->g,inp->largeComm);
       PCU_Switch_Comm(inp->largeComm);
       plan = EnGPar_Zoltan(inp,inp->total_parts,false);
       PCU_Switch_Comm(inp->smallComm);
@@ -49,7 +52,8 @@ namespace engpar {
         }
         PCU_Switch_Comm(inp->smallComm);
       }
-      expandParts(inp->g,inp->largeComm);
+      if (method != ZOLTAN_PHG)
+        expandParts(inp->g,inp->largeComm);
     }
     else {
       if (plan)
-- 
2.43.0


From 32753b8b5f6d798ca6ef4ebddc67728e357c2696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 22/24] fix: number the ghosts of a binary edge list before
 local and global ids mix

---
 interfaces/binGraph.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index bc80493..657e936 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -290,10 +290,20 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
   for (lid_t i=0;i<num_local_verts;i++)
     local_weights[i] = 1;
   int64_t cur_label = 0;
+  std::vector<int64_t> nonlocal_vids;
   for (int64_t i = 0; i < num_local_edges[t]*2; i++) {
     int64_t out = edge_list[t][i];
-    if (ranks[out] != PCU_Comm_Self())
+    if (ranks[out] != PCU_Comm_Self()) {
+      if (createGhost) {
+        //ghosts are numbered after the owned vertices
+        if (vtx_mapping.count(out) == 0) {
+          vtx_mapping[out] = num_local_verts + nonlocal_vids.size();
+          nonlocal_vids.push_back(out);
+        }
+        edge_list[t][i] = vtx_mapping[out];
+      }
       continue;
+    }
     if (vtx_mapping.count(out) == 0) {
       vtx_mapping[out] = cur_label;
       local_unmap[cur_label] = out;
@@ -323,19 +333,7 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
   
 
   if (createGhost) {
-    cur_label = num_local_verts;
-    std::vector<int64_t> nonlocal_vids;
-    for (int64_t i = 0; i < num_local_edges[t]; ++i) {
-      int64_t out = edge_list[t][i];
-      if (vtx_mapping.find(out) ==vtx_mapping.end()) {
-        vtx_mapping[out] = cur_label;
-        edge_list[t][i] = cur_label++;
-        nonlocal_vids.push_back(out);
-      }
-      else if (vtx_mapping[out] >= num_local_verts)
-        edge_list[t][i] = vtx_mapping[out];
-    }
-    num_ghost_verts = cur_label - num_local_verts;
+    num_ghost_verts = nonlocal_vids.size();
     if (num_ghost_verts>0) {
       ghost_unmap = new gid_t[num_ghost_verts];
       owners = new int32_t[num_ghost_verts];
-- 
2.43.0


From 795121d05f3bcf2dc1b5fa9c72e18ede4ff446e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 23/24] fix: number the vertices of a binary edge list that are
 on no local edge

---
 interfaces/binGraph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index 657e936..5e4a8da 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -312,6 +312,12 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
     else        
       edge_list[t][i] = vtx_mapping[out];
   }
+  //owned vertices on no local edge
+  for (int64_t i = 0; i < num_global_verts; ++i)
+    if (ranks[i] == PCU_Comm_Self() && vtx_mapping.count(i) == 0) {
+      vtx_mapping[i] = cur_label;
+      local_unmap[cur_label++] = i;
+    }
   lid_t* tmp_edges = new lid_t[num_local_edges[t]];
   lid_t* temp_counts = new lid_t[num_local_verts];
   degree_list[t] = new lid_t[num_local_verts+1];
-- 
2.43.0


From 01c1ded8af4933b6a13efd4af94be93c9e4b576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 24/24] fix: count every edge of a moved vertex in traditional
 graphs when trimming a plan

An edge of a traditional graph adds to the weight of the part of its source
even when its other end is already on the destination, so leaving it out let a
plan push a part over the limit accepted for an earlier edge criterion.
---
 partition/Diffusive/src/engpar_selector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index fdd93f2..a53f331 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -241,7 +241,8 @@ namespace engpar {
     agi::EdgeIterator* eitr = g->edges(vtx,dim);
     agi::GraphEdge* e;
     while ((e = g->iterate(eitr))) {
-      if (!g->isResidentOn(e,dest))
+      //In a traditional graph an edge counts on the part of its source only
+      if (!g->isHyper() || !g->isResidentOn(e,dest))
         edges.insert(e);
     }
     g->destroy(eitr);
@@ -254,7 +255,7 @@ namespace engpar {
     while ((e = g->iterate(eitr))) {
       if (edges.find(e)!=edges.end())
         continue;
-      if (!g->isResidentOn(e,dest))
+      if (!g->isHyper() || !g->isResidentOn(e,dest))
         tmpEdges.insert(e);
     }
     g->destroy(eitr);
-- 
2.43.0

