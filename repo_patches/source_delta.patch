From b2fefbb8140ebd8f810bc85f42d215a66ac02f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 01/58] fix: keep cycle state per phase, so nested phases
 neither hide changes nor reset the iteration count

---
 copra/src/phase_driver.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/copra/src/phase_driver.c b/copra/src/phase_driver.c
index 656eb35..235f12b 100644
--- a/copra/src/phase_driver.c
+++ b/copra/src/phase_driver.c
@@ -17,7 +17,6 @@
 struct phase_driver {
     size_t level;
     size_t action_id;
-    size_t cycle_iter;
     size_t max_cycles;
     size_t breakpoint_id;
     enum pd_verbosity verbosity;
@@ -32,7 +31,6 @@ struct phase_driver {
 static struct phase_driver phase_driver = {
     .level = 0,
     .action_id = 0,
-    .cycle_iter = 0,
     .breakpoint_id = 0,
     .max_cycles = 100,
     .current_phase = NULL,
@@ -48,7 +46,6 @@ static void resetPhaseDriver()
 {
     phase_driver.level = 0;
     phase_driver.action_id = 0;
-    phase_driver.cycle_iter = 0;
     phase_driver.current_phase = NULL;
     phase_driver.fixed_point = false;
     phase_driver.action_error = false;
@@ -190,6 +187,10 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
     phase_driver.level++;
     bool cycle = phase->is_cycle;
     uint64_t curr_action_id = phase_driver.action_id;
+    size_t cycle_iter = 0;
+    // A change signalled in this phase is also a change for the phases around it.
+    bool outer_fixed_point = phase_driver.fixed_point;
+    bool fixed_point;
 
     do {
         // If we cycle around, reset the action id.
@@ -203,8 +204,11 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
             action_counter++;
             action_id = phase->action_table[action_counter];
         }
-        phase_driver.cycle_iter++;
-    } while(cycle && phase_driver.cycle_iter < phase_driver.max_cycles && !(phase_driver.fixed_point));
+        cycle_iter++;
+        fixed_point = phase_driver.fixed_point;
+        outer_fixed_point = outer_fixed_point && fixed_point;
+    } while(cycle && cycle_iter < phase_driver.max_cycles && !fixed_point);
+    phase_driver.fixed_point = outer_fixed_point;
 
     if (phase_driver.phase_error) {
         if (phase_driver.verbosity > PD_V_QUIET) {
@@ -213,7 +217,6 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
         CTIabortCompilation();
     }
 
-    phase_driver.cycle_iter = 0;
     phase_driver.level--;
 
     phase_driver.current_phase = prev;
-- 
2.43.0


From 5fc0b04da99ecda147444d52cc43a9245a230c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 02/58] fix: declare passes with an explicit func under that
 function's name

---
 cocogen/dynamic_backend/gen_action_header.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_action_header.c b/cocogen/dynamic_backend/gen_action_header.c
index 27a34f6..e5c17ea 100644
--- a/cocogen/dynamic_backend/gen_action_header.c
+++ b/cocogen/dynamic_backend/gen_action_header.c
@@ -5,6 +5,7 @@
 #include "ccn/dynamic_core.h"
 #include "ccngen/trav.h"
 #include "globals.h"
+#include "palm/memory.h"
 #include "dynamic_backend/gen_helpers.h"
 #include "../gen_helpers.h"
 
@@ -37,11 +38,9 @@ node_st *DGAHitraversal(node_st *node)
 node_st *DGAHipass(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    char *prefix = "";
-    if (IPASS_IPREFIX(node)) {
-        prefix = DGH_PASS_PREFIX(node);
-    }
-    OUT_FIELD(DGH_PASS_FUNC_SIG(), prefix, DGH_PASS_NAME(node), "");
+    char *func = DGHpassFuncName(node);
+    OUT_FIELD(DGH_PASS_FUNC_SIG(), "", func, "");
+    MEMfree(func);
     TRAVnext(node);
     return node;
 }
-- 
2.43.0


From 203640fa8101acb473c1a717fa3aa5e1eb4a5e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:04 +0000
Subject: [PATCH 03/58] fix: report disallowed children and attributes of
 allowed lifetimes with an existing function

---
 cocogen/dynamic_backend/gen_check_traversal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_check_traversal.c b/cocogen/dynamic_backend/gen_check_traversal.c
index 883b5f8..67e8d58 100644
--- a/cocogen/dynamic_backend/gen_check_traversal.c
+++ b/cocogen/dynamic_backend/gen_check_traversal.c
@@ -394,7 +394,7 @@ static void LifetimeChildAllowed(node_st *lifetime_begin, node_st *lifetime_end)
                  ID_UPR(INODE_NAME(curr_node)),
                  ID_UPR(CHILD_NAME(curr_child)));
     OUT_FIELD(
-        "CTIerror(\"Found disallowed child(%s) in node(%s).\\n\");",
+        "CTI(CTI_ERROR, true, \"Found disallowed child(%s) in node(%s).\\n\");",
         ID_ORIG(CHILD_NAME(curr_child)),
         ID_ORIG(INODE_NAME(curr_node)));
     OUT_END_IF();
@@ -567,7 +567,7 @@ static void LifetimeAttributeAllowed(node_st *lifetime_begin, node_st *lifetime_
 
     OUT_BEGIN_IF("%s != NULL", access);
     OUT_FIELD(
-        "CTIerror(\"Found disallowed attribute(%s) in node(%s).\\n\");",
+        "CTI(CTI_ERROR, true, \"Found disallowed attribute(%s) in node(%s).\\n\");",
         ID_ORIG(ATTRIBUTE_NAME(curr_attribute)),
         ID_ORIG(INODE_NAME(curr_node)));
     OUT_END_IF();
-- 
2.43.0


From 493db1c1da935700fab9f34041f045bf639d7b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:04 +0000
Subject: [PATCH 04/58] fix: enforce every lifetime of an element, not only the
 first

---
 cocogen/dynamic_backend/gen_check_traversal.c    | 1 +
 cocogen/frontend/lifetimes/map_id_to_lifetimes.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocogen/dynamic_backend/gen_check_traversal.c b/cocogen/dynamic_backend/gen_check_traversal.c
index 67e8d58..e9a5fab 100644
--- a/cocogen/dynamic_backend/gen_check_traversal.c
+++ b/cocogen/dynamic_backend/gen_check_traversal.c
@@ -686,6 +686,7 @@ node_st *DGCHTilifetime(node_st *node)
     } else if (data->lifetime_target == LT_ATTRIBUTE) {
         LifetimeAttributeGen(node);
     }
+    TRAVnext(node);
 
     return node;
 }
diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index ed733b0..285a1e6 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -99,6 +99,7 @@ node_st *MITLilifetime(node_st *node)
     TRAVbegin(node);
     last_action = NULL;
     TRAVend(node);
+    TRAVnext(node);
     return node;
 }
 
-- 
2.43.0


From 84211892dba75ced955d2cb0b075ba118722cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:25 +0000
Subject: [PATCH 05/58] fix: map lifetime targets to the ids of the occurrence
 they name

---
 .../frontend/lifetimes/map_id_to_lifetimes.c  | 60 +++++++++++++------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index 285a1e6..6cdbd1c 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -20,6 +20,12 @@ static node_st *ast = NULL;
 static node_st *ste = NULL;
 static bool in_node = false;
 static bool in_lifetime = false;
+// ID of the action that is looked at, and the IDs of and after the last action
+// that was found. An action can occur more than once, so these depend on where
+// in the action structure we are.
+static uint64_t curr_id = 0;
+static uint64_t last_id = 0;
+static uint64_t last_next_id = 0;
 
 /**
  * Compare if two identifiers are equal by comparing their lower case form.
@@ -35,6 +41,33 @@ static bool CompareID(node_st *id, node_st *other_id)
     return STReq(ID_LWR(id), ID_LWR(other_id));
 }
 
+/**
+ * The number of actions in a list, including the ones in nested phases.
+ */
+static uint64_t CountActions(node_st *actions)
+{
+    uint64_t count = 0;
+    for (; actions != NULL; actions = IACTIONS_NEXT(actions)) {
+        node_st *action = STlookup(ste, IACTIONS_REFERENCE(actions));
+        count++;
+        if (action && NODE_TYPE(action) == NT_IPHASE) {
+            count += CountActions(IPHASE_IACTIONS(action));
+        }
+    }
+    return count;
+}
+
+static void SetLast(node_st *node, node_st *action, uint64_t id)
+{
+    last_action = node;
+    last_node = action;
+    last_id = id;
+    last_next_id = id + 1;
+    if (NODE_TYPE(action) == NT_IPHASE) {
+        last_next_id += CountActions(IPHASE_IACTIONS(action));
+    }
+}
+
 
 node_st *MITLast(node_st *node)
 {
@@ -64,23 +97,21 @@ node_st *MITLiactions(node_st *node)
     if (action_lookup == NULL) {
         CTI(CTI_ERROR, true, "Lifetime target(%s) does not reference a valid action.", ID_ORIG(IACTIONS_REFERENCE(node)));
     }
+    uint64_t id = curr_id++;
     if (NODE_TYPE(action_lookup) == NT_IPHASE) {
         if (CompareID(IPHASE_NAME(action_lookup), curr_target) || CompareID(IPHASE_IPREFIX(action_lookup), curr_target)) {
-            last_action = node;
-            last_node = action_lookup;
+            SetLast(node, action_lookup, id);
             return node;
         }
         TRAViactions(action_lookup);
     } else if (NODE_TYPE(action_lookup) == NT_IPASS) {
         if (CompareID(IPASS_NAME(action_lookup), curr_target) || CompareID(IPASS_IPREFIX(action_lookup), curr_target)) {
-            last_action = node;
-            last_node = action_lookup;
+            SetLast(node, action_lookup, id);
             return node;
         }
     } else if (NODE_TYPE(action_lookup) == NT_ITRAVERSAL) {
         if (CompareID(ITRAVERSAL_NAME(action_lookup), curr_target) || CompareID(ITRAVERSAL_IPREFIX(action_lookup), curr_target)) {
-            last_node = action_lookup;
-            last_action = node;
+            SetLast(node, action_lookup, id);
             return node;
         }
     }
@@ -115,18 +146,8 @@ node_st *MITLlifetime_range(node_st *node)
         info.last_column = 0;
         CTIobj(CTI_ERROR, true, info, "Lifetime does not target a valid action.");
     } else {
-        LIFETIME_RANGE_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action);
-        if (NODE_TYPE(last_node) == NT_IPHASE) {
-            node_st *phase_actions = IPHASE_IACTIONS(last_node);
-            node_st *next = IACTIONS_NEXT(phase_actions);
-            while (next) {
-                phase_actions = next;
-                next = IACTIONS_NEXT(phase_actions);
-            }
-            LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(phase_actions) + 1;
-        } else {
-            LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action) + 1;
-        }
+        LIFETIME_RANGE_ACTION_ID(node) = last_id;
+        LIFETIME_RANGE_NEXT_ACTION_ID(node) = last_next_id;
     }
     in_lifetime = false;
     curr_target = NULL;
@@ -140,6 +161,8 @@ node_st *MITLid(node_st *node)
     }
     curr_target = node;
     if (last_action == NULL) {
+        // 1 is the start phase itself.
+        curr_id = 2;
         TRAViactions(AST_START_PHASE(ast));
     } else {
         node_st *action = STlookup(ste, IACTIONS_REFERENCE(last_action));
@@ -156,6 +179,7 @@ node_st *MITLid(node_st *node)
         } else {
             last_action = NULL;
             last_node = NULL;
+            curr_id = last_id + 1;
             TRAViactions(action);
         }
     }
-- 
2.43.0


From 3acc92f886ab6d72effa547611092515b12e9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:44 +0000
Subject: [PATCH 06/58] fix: do not free string results of attribute equations,
 which no plain field holds

---
 cocogen/dynamic_backend/gen_free_traversal.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_free_traversal.c b/cocogen/dynamic_backend/gen_free_traversal.c
index ae3b5d8..215b485 100644
--- a/cocogen/dynamic_backend/gen_free_traversal.c
+++ b/cocogen/dynamic_backend/gen_free_traversal.c
@@ -90,7 +90,10 @@ node_st *DGFTchild(node_st *node)
 node_st *DGFTattribute(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    if (ATTRIBUTE_TYPE(node) == AT_string) {
+    // Results of attribute equations may be shared, so the node does not own them.
+    bool is_classic =
+        !ATTRIBUTE_IS_INHERITED(node) && !ATTRIBUTE_IS_SYNTHESIZED(node);
+    if (ATTRIBUTE_TYPE(node) == AT_string && is_classic) {
         OUT_FIELD("MEMfree(arg_node->data.N_%s->%s)", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)));
     }
     TRAVnext(node);
-- 
2.43.0


From 5b5a32117c59c3cd069a7d7b2a5cc09978f08014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:44 +0000
Subject: [PATCH 07/58] fix: name constructor parameters of user-typed
 attributes as the constructor's body does

---
 cocogen/dynamic_backend/gen_node_init_funcs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_node_init_funcs.c b/cocogen/dynamic_backend/gen_node_init_funcs.c
index 46ef2c2..5a6fb11 100644
--- a/cocogen/dynamic_backend/gen_node_init_funcs.c
+++ b/cocogen/dynamic_backend/gen_node_init_funcs.c
@@ -73,7 +73,7 @@ node_st *DGIFattribute(node_st *node)
         } else if (ATTRIBUTE_TYPE(node) == AT_link_or_enum) {
             OUT("enum %s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_user) {
-            OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), ID_LWR(ATTRIBUTE_NAME(node)));
+            OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else {
             OUT("%s %s", FMTattributeTypeToString(ATTRIBUTE_TYPE(node)), DGHattributeField(node));
         }
-- 
2.43.0


From 27d134009df0d88cd369dc99cddc39b041aea4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:51 +0000
Subject: [PATCH 08/58] fix: check every attribute of a node or nodeset, not
 only the first

---
 cocogen/frontend/check_attributes.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocogen/frontend/check_attributes.c b/cocogen/frontend/check_attributes.c
index 13c10aa..d53533c 100644
--- a/cocogen/frontend/check_attributes.c
+++ b/cocogen/frontend/check_attributes.c
@@ -68,6 +68,7 @@ node_st *CHAattribute(node_st *node) {
     // Don't check propagated attributes for the rest to prevent duplicate
     // errors
     if (ATTRIBUTE_IS_PROPAGATED(node)) {
+        TRAVnext(node);
         return node;
     }
 
@@ -94,5 +95,6 @@ node_st *CHAattribute(node_st *node) {
         }
     }
 
+    TRAVnext(node);
     return node;
 }
-- 
2.43.0


From cb041c89f5e2cc102783532716efc816b978f7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:47 +0000
Subject: [PATCH 09/58] fix: unwrap only the expression of a referenced
 nodeset, not the nodesets after it

---
 cocogen/frontend/unwrap_setexpr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/unwrap_setexpr.c b/cocogen/frontend/unwrap_setexpr.c
index db11363..df3c027 100644
--- a/cocogen/frontend/unwrap_setexpr.c
+++ b/cocogen/frontend/unwrap_setexpr.c
@@ -61,7 +61,8 @@ node_st *USEsetreference(node_st *node)
     node_st *nodeset = STlookup(ste, SETREFERENCE_REFERENCE(node));
     assert(nodeset && NODE_TYPE(nodeset) == NT_INODESET);
     if (INODESET_EXPR(nodeset) && NODE_TYPE(INODESET_EXPR(nodeset)) != NT_SETLITERAL) {
-        TRAVchildren(nodeset);
+        // Only its expression, the next nodeset may be the one being unwrapped.
+        TRAVexpr(nodeset);
     }
     if (INODESET_EXPR(nodeset)) {
         assert(NODE_TYPE(INODESET_EXPR(nodeset)) == NT_SETLITERAL);
-- 
2.43.0


From 8c612a2ab121b5c9caa3634c9b1ffd523af3b454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:18 +0000
Subject: [PATCH 10/58] fix: reject traversals whose nodes are an empty set,
 they were taken for traversals of all nodes

---
 cocogen/frontend/unwrap_setexpr.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cocogen/frontend/unwrap_setexpr.c b/cocogen/frontend/unwrap_setexpr.c
index df3c027..444e8bb 100644
--- a/cocogen/frontend/unwrap_setexpr.c
+++ b/cocogen/frontend/unwrap_setexpr.c
@@ -7,9 +7,13 @@
 
 #include <stddef.h>
 #include "assert.h"
+#include "palm/ctinfo.h"
 #include "palm/str.h"
 #include "ccngen/ast.h"
+#include "ccngen/trav.h"
+#include "ccn/ccn.h"
 #include "ccn/dynamic_core.h"
+#include "frontend/ctihelp.h"
 #include "sets/set.h"
 #include "frontend/symboltable.h"
 
@@ -18,6 +22,19 @@ static node_st *ste;
 node_st *USEast(node_st *node)
 {
     ste = AST_STABLE(node);
+    for (node_st *trav = AST_ITRAVERSALS(node); trav != NULL; trav = ITRAVERSAL_NEXT(trav)) {
+        if (ITRAVERSAL_INODES(trav) == NULL) {
+            continue;
+        }
+        TRAVinodes(trav);
+        // Without targets it would be taken for a traversal of all nodes.
+        if (ITRAVERSAL_INODES(trav) == NULL) {
+            struct ctinfo info;
+            id_to_info(ITRAVERSAL_NAME(trav), &info);
+            CTIobj(CTI_ERROR, true, info, "The nodes of traversal '%s' are an empty set.", ID_ORIG(ITRAVERSAL_NAME(trav)));
+            CCNerrorAction();
+        }
+    }
     TRAVchildren(node);
     return node;
 }
-- 
2.43.0


From 227a3a7de626b0e4a3a188a190ffc2b522ac6b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:40 +0000
Subject: [PATCH 11/58] fix: schedule visits for children of an empty nodeset,
 whose missing table entry was dereferenced

---
 .../attribute_scheduler/schedule_attribute_visits.c    | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
index 46e859d..3195688 100644
--- a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
+++ b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
@@ -607,11 +607,15 @@ node_st *SAVast(node_st *node) {
     for (node_st *nodeset = AST_INODESETS(node); nodeset != NULL;
          nodeset = INODESET_NEXT(nodeset)) {
         struct graph_list *graph = HTlookup(graphs_htable, nodeset);
+        struct visits *visits;
         if (graph == NULL) { // Empty nodeset
-            continue;
+            visits = MEMmalloc(sizeof(struct visits));
+            visits->visits = NULL;
+            visits->length = 0;
+        } else {
+            visits = collect_visits(
+                graph->graph, nodeset, AST_STABLE(node), partition_tables);
         }
-        struct visits *visits = collect_visits(
-            graph->graph, nodeset, AST_STABLE(node), partition_tables);
 
         HTinsert(visits_htable, nodeset, visits);
     }
-- 
2.43.0


From b0e570bcfc93445628bdf162e71c43fc037fc745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:07 +0000
Subject: [PATCH 12/58] fix: removing a key whose bucket is empty finds nothing
 instead of dereferencing NULL

---
 palm/src/hash_table.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 713d5f4..f29cb78 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -154,6 +154,10 @@ void *HTremove(htable_st *table, void *key)
         return value;
     }
 
+    if (!entry) {
+        return NULL;
+    }
+
     previous = entry;
     entry = entry->next;
 
-- 
2.43.0


From 7292c8dcb276262c511063eb90a636a939ab69f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:07 +0000
Subject: [PATCH 13/58] fix: a cleared hash table has no elements

---
 palm/src/hash_table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index f29cb78..6a67f99 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -210,6 +210,7 @@ void HTclear(struct htable *table)
         }
         table->entries[i] = NULL;
     }
+    table->elements = 0;
 }
 
 /**
-- 
2.43.0


From e64c4f661f13bb12621523b23e3805ec0386bd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:03 +0000
Subject: [PATCH 14/58] fix: STRsubStr overflowed for large lengths and lengths
 below -strlen

---
 palm/src/str.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/palm/src/str.c b/palm/src/str.c
index 2dc5cc3..7b72b22 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -85,9 +85,12 @@ char *STRsubStr(const char *string, int start, int len)
 
     if (len < 0) {
         len = strlen + len; /* + - => - */
+        if (len < 0) {
+            len = 0;
+        }
     }
 
-    if ((start + len) > strlen) { /* to long take what we can */
+    if (len > strlen - start) { /* to long take what we can */
         len = strlen - start;
     }
 
-- 
2.43.0


From 0961e802631c7fad1c0273fb7adbe06a630eae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:03 +0000
Subject: [PATCH 15/58] fix: STRcatn yielded NULL instead of an empty string

---
 palm/src/str.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/palm/src/str.c b/palm/src/str.c
index 7b72b22..d89802b 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -167,6 +167,7 @@ char *STRcatn(int n, ...)
 {
     int i;
     int length;
+    bool any = false;
     char *result;
     const char *ptr;
     va_list arg_list;
@@ -180,13 +181,14 @@ char *STRcatn(int n, ...)
     for (i = 0; i < n; ++i) {
         ptr = va_arg(arg_list, const char *);
         if (ptr != NULL) {
+            any = true;
             length += STRlen(ptr);
         }
     }
 
     va_end(arg_list);
 
-    if (length == 0) {
+    if (!any) {
         result = NULL;
     } else {
         result = (char *)MEMmalloc(length + 1);
-- 
2.43.0


From a686b11151aaeab13ca3b25e4bcb94e694f85dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:03 +0000
Subject: [PATCH 16/58] fix: STRsuffix dereferenced NULL arguments, unlike
 STRprefix

---
 palm/src/str.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/palm/src/str.c b/palm/src/str.c
index d89802b..2249191 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -349,7 +349,9 @@ bool STRsuffix(const char *suffix, const char *str)
 {
     bool res = false;
 
-    if (STRlen(suffix) > STRlen(str)) {
+    if (suffix == NULL) {
+        res = true;
+    } else if (str == NULL || STRlen(suffix) > STRlen(str)) {
         res = false;
     } else {
         str = str + STRlen(str) - STRlen(suffix);
-- 
2.43.0


From 612642904877253ef18a3d6e8a2f0d1c2df42bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:03 +0000
Subject: [PATCH 17/58] fix: STRsubstToken crashed on a NULL string and never
 ended for an empty token

---
 palm/src/str.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/palm/src/str.c b/palm/src/str.c
index 2249191..2451b85 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -569,9 +569,17 @@ char *STRsubstToken(const char *str, const char *token, const char *subst)
     char *pos;
     char *result;
 
+    if (str == NULL) {
+        return NULL;
+    }
+
     /* Find number of occurrences of token in str */
     occurrences = 0;
     tlen = STRlen(token);
+    if (tlen == 0) {
+        /* nothing to substitute */
+        return STRcpy(str);
+    }
     slen = STRlen(subst);
     found = strstr(str, token);
 
-- 
2.43.0


From 915ab132d459603212fc8ef084f85796fb16c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:21 +0000
Subject: [PATCH 18/58] fix: messages lost every '@' and were broken there

---
 palm/src/ctinfo.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/palm/src/ctinfo.c b/palm/src/ctinfo.c
index 6812dff..b994987 100644
--- a/palm/src/ctinfo.c
+++ b/palm/src/ctinfo.c
@@ -32,7 +32,7 @@ static int warnings = 0;
  *
  *   @brief  formats message according to line length
  *
- *           '@' characters are inserted into the buffer to represent line
+ *           '\n' characters are inserted into the buffer to represent line
  *           breaks.
  *
  *   @param buffer  message buffer
@@ -57,12 +57,11 @@ static void ProcessMessage(char *buffer, int line_length)
         }
 
         if (buffer[index] == '\n') {
-            buffer[index] = '@';
             column = 0;
         } else {
             if (column == line_length) {
                 if (buffer[last_space] == ' ') {
-                    buffer[last_space] = '@';
+                    buffer[last_space] = '\n';
                     column = index - last_space;
                 } else {
                     break;
@@ -152,7 +151,7 @@ char *CTIgetErrorMessageVA(int line, const char *format, va_list arg_p)
     ProcessMessage(message_buffer,
         message_line_length - strlen(error_message_header));
 
-    first_line = STRfmt("line %d @", line);
+    first_line = STRfmt("line %d \n", line);
     res = STRcat(first_line, message_buffer);
     first_line = MEMfree(first_line);
 
@@ -248,12 +247,12 @@ static void PrintMessage(char *header, const char *format, va_list arg_p, bool n
 
     ProcessMessage(message_buffer, message_line_length - strlen(header));
 
-    line = strtok(message_buffer, "@");
+    line = strtok(message_buffer, "\n");
 
     while (line != NULL) {
         fprintf(stderr, "%s%s\n", header, line);
         header = "";
-        line = strtok(NULL, "@");
+        line = strtok(NULL, "\n");
     }
 
     PrintInfo(info);
-- 
2.43.0


From 67fa357ce7baa19416af59b569792ef2ca085dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:31 +0000
Subject: [PATCH 19/58] fix: a location without file name or position was
 reported as (null) and 0

---
 palm/src/ctinfo.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/palm/src/ctinfo.c b/palm/src/ctinfo.c
index b994987..6889385 100644
--- a/palm/src/ctinfo.c
+++ b/palm/src/ctinfo.c
@@ -184,23 +184,34 @@ static void PrintLocation(struct ctinfo *info)
     }
 }
 
+static void PrintFile(struct ctinfo *info)
+{
+    fprintf(stderr, " --> ");
+    if (info->filename != NULL) {
+        fprintf(stderr, "%s:", info->filename);
+    }
+}
+
 static void PrintLine(struct ctinfo *info)
 {
-    fprintf(stderr, " --> %s:%d\n", info->filename, info->first_line);
+    PrintFile(info);
+    fprintf(stderr, "%d\n", info->first_line);
 }
 
 static void PrintLineCol(struct ctinfo *info)
 {
-    fprintf(stderr, " --> %s:%d:%d\n", info->filename, info->first_line, info->first_column);
+    PrintFile(info);
+    fprintf(stderr, "%d:%d\n", info->first_line, info->first_column);
     PrintLocation(info);
 }
 
 static void PrintRange(struct ctinfo *info)
 {
+    PrintFile(info);
     if (info->last_line == 0 || info->first_line == info->last_line) {
-        fprintf(stderr, " --> %s:%d.%d-%d\n", info->filename, info->first_line, info->first_column, info->last_column);
+        fprintf(stderr, "%d.%d-%d\n", info->first_line, info->first_column, info->last_column);
     } else {
-        fprintf(stderr, " --> %s:%d.%d-%d.%d\n", info->filename, info->first_line, info->first_column, info->last_line, info->last_column);
+        fprintf(stderr, "%d.%d-%d.%d\n", info->first_line, info->first_column, info->last_line, info->last_column);
     }
     PrintLocation(info);
 }
@@ -211,6 +222,14 @@ static void PrintInfo(struct ctinfo *info)
         return;
     }
 
+    if (info->first_line <= 0) {
+        /* no position known */
+        if (info->filename != NULL) {
+            fprintf(stderr, " --> %s\n", info->filename);
+        }
+        return;
+    }
+
     if (info->first_line > 0 && info->first_column <= 0) {
         PrintLine(info);
     } else if (info->last_column <= 0 || ((info->last_line <= 0 || info->first_line == info->last_line) && info->first_column == info->last_column)) {
-- 
2.43.0


From 3f336c49afbbe2b86b37e62035772ae04cf6f605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:15 +0000
Subject: [PATCH 20/58] fix: reject specifications without start phase or root
 node, which crashed cocogen

---
 cocogen/frontend/check_existance.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 8e53ed2..8ffb44e 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -50,6 +50,12 @@ node_st *CEXast(node_st *node)
     root = node;
     ste = AST_STABLE(node);
     TRAVchildren(node);
+    if (!seen_start_phase) {
+        CTI(CTI_ERROR, true, "No start phase is defined.");
+    }
+    if (!seen_root_node) {
+        CTI(CTI_ERROR, true, "No root node is defined.");
+    }
     CTIabortOnError();
     CCNfree(trav_data_names);
     CCNfree(enum_prefix_ste);
-- 
2.43.0


From 734b6b8456ff1b6dc6615df89fd26a37e1d90eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:15 +0000
Subject: [PATCH 21/58] fix: reject nodes, nodesets and enums named as actions

---
 cocogen/frontend/check_existance.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 8ffb44e..8ecff56 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -68,6 +68,8 @@ node_st *CEXiactions(node_st *node)
     node_st *ref = STlookup(ste, IACTIONS_REFERENCE(node));
     if (ref == NULL) {
         CTI(CTI_ERROR, true, "Could not find action: %s\n", ID_ORIG(IACTIONS_REFERENCE(node)));
+    } else if (NODE_TYPE(ref) != NT_IPHASE && NODE_TYPE(ref) != NT_ITRAVERSAL && NODE_TYPE(ref) != NT_IPASS) {
+        CTI(CTI_ERROR, true, "Not an action: %s\n", ID_ORIG(IACTIONS_REFERENCE(node)));
     }
     return node;
 }
-- 
2.43.0


From 549feff72b07324b3e4ac25c972e01478ebd1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:16 +0000
Subject: [PATCH 22/58] fix: reject enums that repeat a value, the generated
 enumeration does not compile

---
 cocogen/frontend/check_existance.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 8ecff56..da311e6 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -324,6 +324,13 @@ node_st *CEXienum(node_st *node)
     } else {
         enum_prefix_ste = STadd(enum_prefix_ste, IENUM_IPREFIX(node), node);
     }
+    for (node_st *val = IENUM_VALS(node); val != NULL; val = ID_NEXT(val)) {
+        for (node_st *other = ID_NEXT(val); other != NULL; other = ID_NEXT(other)) {
+            if (STReq(ID_LWR(val), ID_LWR(other))) {
+                CTI(CTI_ERROR, true, "Double declaration of enum value: %s\n", ID_ORIG(other));
+            }
+        }
+    }
     TRAVchildren(node);
     return node;
 }
-- 
2.43.0


From 5d3603bedfe98fc747c10b654b0942d31f3f2606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:16 +0000
Subject: [PATCH 23/58] fix: name the function in the message about duplicate
 pass functions instead of printing a node as a string

---
 cocogen/frontend/buildsymboltable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/buildsymboltable.c b/cocogen/frontend/buildsymboltable.c
index 6ef2787..e123382 100644
--- a/cocogen/frontend/buildsymboltable.c
+++ b/cocogen/frontend/buildsymboltable.c
@@ -133,7 +133,7 @@ node_st *BSTipass(node_st *node)
         if (existing_func != NULL) {
             struct ctinfo info;
             id_to_info(IPASS_TARGET_FUNC(node), &info);
-            CTIobj(CTI_ERROR, false, info, "Duplicate pass function: %s\n", IPASS_TARGET_FUNC(node));
+            CTIobj(CTI_ERROR, false, info, "Duplicate pass function: %s\n", ID_ORIG(IPASS_TARGET_FUNC(node)));
             id_to_info(IPASS_TARGET_FUNC(existing_func), &info);
             CTIobj(CTI_NOTE, true, info, "Also defined here\n");
         } else {
-- 
2.43.0


From f6445c1ea87909edc4abf6566d66ea6a532a881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:16 +0000
Subject: [PATCH 24/58] fix: compare the types of redeclared attributes without
 regard to case, like other names

---
 cocogen/frontend/nodesets/propagate_attributes.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/nodesets/propagate_attributes.c b/cocogen/frontend/nodesets/propagate_attributes.c
index 959724c..5f441b8 100644
--- a/cocogen/frontend/nodesets/propagate_attributes.c
+++ b/cocogen/frontend/nodesets/propagate_attributes.c
@@ -26,8 +26,11 @@ static inline bool compare_attribute_types(node_st *a, node_st *b) {
         return false;
     }
 
-    if (ATTRIBUTE_TYPE(a) == AT_link || ATTRIBUTE_TYPE(a) == AT_link_or_enum ||
-        ATTRIBUTE_TYPE(a) == AT_user) {
+    if (ATTRIBUTE_TYPE(a) == AT_link || ATTRIBUTE_TYPE(a) == AT_link_or_enum) {
+        return STReq(ID_LWR(ATTRIBUTE_TYPE_REFERENCE(a)),
+                     ID_LWR(ATTRIBUTE_TYPE_REFERENCE(b)));
+    }
+    if (ATTRIBUTE_TYPE(a) == AT_user) {
         return STReq(ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(a)),
                      ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(b)));
     }
-- 
2.43.0


From c5c6f527783e8775c22f54c1660426ad7474bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:16 +0000
Subject: [PATCH 25/58] fix: separate the options of a cycle with info, uid and
 gate by commas, as everywhere else

---
 cocogen/frontend/scanAndParse/dsl-parser.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-parser.y b/cocogen/frontend/scanAndParse/dsl-parser.y
index a805eca..756e569 100644
--- a/cocogen/frontend/scanAndParse/dsl-parser.y
+++ b/cocogen/frontend/scanAndParse/dsl-parser.y
@@ -302,7 +302,7 @@ phase: phaseheader '{' info[information] ',' uid[identifier] ',' gate[gatef] ','
          IPHASE_IPREFIX($$) = $identifier;
          IPHASE_IACTIONS($$) = $actions;
     }
-    | cycleheader '{' info[information] uid[identifier] gate[gatef] actionsbody[actions] '}'
+    | cycleheader '{' info[information] ',' uid[identifier] ',' gate[gatef] ',' actionsbody[actions] '}'
     {
         $$ = $1;
         IPHASE_IPREFIX($$) = $identifier;
-- 
2.43.0


From c9987dde8cd4b83e0a948d735415e30736afd79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:50 +0000
Subject: [PATCH 26/58] fix: reject attributes whose equation depends on the
 attribute itself

---
 cocogen/frontend/attribute_scheduler/graph.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/attribute_scheduler/graph.c b/cocogen/frontend/attribute_scheduler/graph.c
index 9b79d81..8ad29af 100644
--- a/cocogen/frontend/attribute_scheduler/graph.c
+++ b/cocogen/frontend/attribute_scheduler/graph.c
@@ -222,7 +222,8 @@ static struct GRedge *add_edge_internal(struct GRgraph *graph,
 static inline bool check_cycle(struct GRgraph *graph, struct GRnode *n1,
                                struct GRnode *n2, struct GRerror *error,
                                enum GRedge_type type) {
-    if (HTlookup_edge(graph->internal->edge_map, n2, n1)) {
+    if (GRnode_equal(n1, n2) ||
+        HTlookup_edge(graph->internal->edge_map, n2, n1)) {
         switch (type) {
         case GRnormal:
             error->type = GR_error_cycle;
-- 
2.43.0


From 727fe0c16299cac8ee5cf182a1eff01c051acefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:50 +0000
Subject: [PATCH 27/58] fix: reject attributes that are inherited and
 synthesized, scheduling them overran a buffer

---
 cocogen/frontend/check_attributes.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cocogen/frontend/check_attributes.c b/cocogen/frontend/check_attributes.c
index d53533c..2114a21 100644
--- a/cocogen/frontend/check_attributes.c
+++ b/cocogen/frontend/check_attributes.c
@@ -86,6 +86,12 @@ node_st *CHAattribute(node_st *node) {
         }
     }
 
+    if (ATTRIBUTE_IS_INHERITED(node) && ATTRIBUTE_IS_SYNTHESIZED(node)) {
+        CTIobj(CTI_ERROR, true, info,
+               "Attributes cannot be both inherited and synthesized\n");
+        CCNerrorAction();
+    }
+
     if (ATTRIBUTE_LIFETIMES(node)) {
         if (ATTRIBUTE_IS_INHERITED(node) || ATTRIBUTE_IS_SYNTHESIZED(node)) {
             CTIobj(
-- 
2.43.0


From 6c02208be8088ce8e7df205fe029ce4cc48d328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:50 +0000
Subject: [PATCH 28/58] fix: reject several equations for one attribute, their
 evaluation functions had the same name

---
 cocogen/frontend/check_product_rules.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index cbd9a20..441c456 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -4,7 +4,7 @@
  * Traversal: checkProductRules
  * UID      : CPR
  *
- * TODO: prevent duplicate production rules / args
+ * TODO: prevent duplicate args
  */
 
 #include <assert.h>
@@ -245,7 +245,18 @@ node_st *CPRinode(node_st *node) {
  * @fn CPRequation
  */
 node_st *CPRequation(node_st *node) {
-    check_attribute_reference(EQUATION_RULE(node), true);
+    node_st *rule = EQUATION_RULE(node);
+    check_attribute_reference(rule, true);
+    if (find_product_rule(EQUATION_NEXT(node), ATTRIBUTE_REFERENCE_INODE(rule),
+                          ATTRIBUTE_REFERENCE_IATTRIBUTE(rule)) != NULL) {
+        struct ctinfo info;
+        id_to_info(ATTRIBUTE_REFERENCE_IATTRIBUTE(rule), &info);
+        CTIobj(CTI_ERROR, true, info,
+               "Attribute '%s' has several equations in node '%s'\n",
+               ID_ORIG(ATTRIBUTE_REFERENCE_IATTRIBUTE(rule)),
+               ID_ORIG(INODE_NAME(DATA_CPR_GET()->curr_node)));
+        CCNerrorAction();
+    }
     TRAViargs(node);
     TRAVnext(node);
     return node;
-- 
2.43.0


From 676126c2a4b7fe577312d3d8eaac8bdbca4e9e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:10 +0000
Subject: [PATCH 29/58] fix: reject children of nodesets whose members have
 inherited attributes the nodeset lacks, they were never evaluated

---
 cocogen/frontend/check_product_rules.c | 35 ++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index 441c456..eeced5d 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -220,6 +220,40 @@ static void check_product_rule(node_st *equations, node_st *node_name,
     }
 }
 
+/* A child of a nodeset only has equations for the inherited attributes of that
+   nodeset, so its members cannot have other ones. */
+static void check_member_attributes(node_st *child, node_st *nodeset,
+                                    node_st *members) {
+    if (members == NULL) {
+        return;
+    }
+
+    assert(NODE_TYPE(members) == NT_SETLITERAL);
+    node_st *member = STlookup(DATA_CPR_GET()->symboltable,
+                               SETLITERAL_REFERENCE(members));
+    assert(member != NULL && NODE_TYPE(member) == NT_INODE);
+
+    for (node_st *attribute = INODE_IATTRIBUTES(member); attribute != NULL;
+         attribute = ATTRIBUTE_NEXT(attribute)) {
+        if (ATTRIBUTE_IS_INHERITED(attribute) &&
+            find_attribute(nodeset, INODESET_IATTRIBUTES(nodeset),
+                           ATTRIBUTE_NAME(attribute)) == NULL) {
+            struct ctinfo info;
+            id_to_info(CHILD_NAME(child), &info);
+            CTIobj(CTI_ERROR, true, info,
+                   "Child '%s' can be a '%s', whose inherited attribute '%s' "
+                   "is not an attribute of nodeset '%s'\n",
+                   ID_ORIG(CHILD_NAME(child)), ID_ORIG(INODE_NAME(member)),
+                   ID_ORIG(ATTRIBUTE_NAME(attribute)),
+                   ID_ORIG(INODESET_NAME(nodeset)));
+            CCNerrorAction();
+        }
+    }
+
+    check_member_attributes(child, nodeset, SETLITERAL_LEFT(members));
+    check_member_attributes(child, nodeset, SETLITERAL_RIGHT(members));
+}
+
 /**
  * @fn CPRast
  */
@@ -297,6 +331,7 @@ node_st *CPRchild(node_st *node) {
     } else {
         assert(NODE_TYPE(ref_node) == NT_INODESET);
         attributes = INODESET_IATTRIBUTES(ref_node);
+        check_member_attributes(node, ref_node, INODESET_EXPR(ref_node));
     }
 
     for (node_st *attribute = attributes; attribute != NULL;
-- 
2.43.0


From d47a5f97f4ec355454f0a634dba16d67c61f22e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:00 +0000
Subject: [PATCH 30/58] fix: spell enum types in generated code as they are
 defined, not as they are referenced

---
 cocogen/frontend/check_existance.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index da311e6..0d949fe 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -122,6 +122,9 @@ node_st  *CEXitravdata(node_st *node)
                 ITRAVDATA_TYPE(node) = AT_link;
             } else if (NODE_TYPE(ste_entry) == NT_IENUM) {
                 ITRAVDATA_TYPE(node) = AT_link_or_enum;
+                // C code has to spell the enum as it is defined.
+                CCNfree(ITRAVDATA_TYPE_REFERENCE(node));
+                ITRAVDATA_TYPE_REFERENCE(node) = CCNcopy(IENUM_NAME(ste_entry));
             } else {
                 CTI(CTI_ERROR, true, "Invalid type in travdata entry.");
             }
@@ -272,6 +275,9 @@ node_st *CEXattribute(node_st *node)
                 ATTRIBUTE_TYPE(node) = AT_link;
             } else if (NODE_TYPE(ste_entry) == NT_IENUM) {
                 ATTRIBUTE_TYPE(node) = AT_link_or_enum;
+                // C code has to spell the enum as it is defined.
+                CCNfree(ATTRIBUTE_TYPE_REFERENCE(node));
+                ATTRIBUTE_TYPE_REFERENCE(node) = CCNcopy(IENUM_NAME(ste_entry));
             } else {
                 CTI(CTI_ERROR, true, "Invalid type in attribute type: %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)));
             }
-- 
2.43.0


From 645eb0c238eef36a4c93107b47de3e08a1924fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:57 +0000
Subject: [PATCH 31/58] fix: reject circular phase definitions, which
 overflowed the stack

---
 cocogen/frontend/check_existance.c | 31 ++++++++++++++++++++++++++++++
 docs/source/bugs.rst               |  6 ------
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 0d949fe..048d88b 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -7,6 +7,7 @@
 #include "globals.h"
 #include "palm/ctinfo.h"
 #include "palm/str.h"
+#include "palm/hash_table.h"
 #include "ccngen/ast.h"
 #include "ccngen/trav.h"
 #include "ccn/dynamic_core.h"
@@ -45,11 +46,41 @@ void checkUID(node_st *id)
     }
 }
 
+// Report a phase that is found while its own actions are searched.
+static void checkCircularPhase(htable_st *seen, node_st *phase)
+{
+    static int searching, finished;
+    HTinsert(seen, phase, &searching);
+    for (node_st *action = IPHASE_IACTIONS(phase); action != NULL; action = IACTIONS_NEXT(action)) {
+        node_st *ref = STlookup(ste, IACTIONS_REFERENCE(action));
+        if (ref == NULL || NODE_TYPE(ref) != NT_IPHASE) {
+            continue;
+        }
+        void *state = HTlookup(seen, ref);
+        if (state == &searching) {
+            struct ctinfo info;
+            id_to_info(IACTIONS_REFERENCE(action), &info);
+            CTIobj(CTI_ERROR, true, info, "Circular phase definition: %s\n", ID_ORIG(IPHASE_NAME(ref)));
+        } else if (state == NULL) {
+            checkCircularPhase(seen, ref);
+        }
+    }
+    HTremove(seen, phase);
+    HTinsert(seen, phase, &finished);
+}
+
 node_st *CEXast(node_st *node)
 {
     root = node;
     ste = AST_STABLE(node);
     TRAVchildren(node);
+    htable_st *seen = HTnew_Ptr(100);
+    for (node_st *phase = AST_IPHASES(node); phase != NULL; phase = IPHASE_NEXT(phase)) {
+        if (HTlookup(seen, phase) == NULL) {
+            checkCircularPhase(seen, phase);
+        }
+    }
+    HTdelete(seen);
     if (!seen_start_phase) {
         CTI(CTI_ERROR, true, "No start phase is defined.");
     }
diff --git a/docs/source/bugs.rst b/docs/source/bugs.rst
index a50e899..e29d09e 100644
--- a/docs/source/bugs.rst
+++ b/docs/source/bugs.rst
@@ -10,9 +10,3 @@ Dot does not handle nodesets well
 Currently, the dot diagram creates a link to the members of a nodeset and not the actual
 nodeset. As a result, some nodesets appear to not have a parent in the dot diagram.
 
-
-
-Circular phase definitions
-==========================
-When you have circular references in your phase definitions, a C compiler error is given.
-For example, referencing the phase being defined in the actions block of that phase.
\ No newline at end of file
-- 
2.43.0


From 12e6bf46623ce1eb3738b1a901712ae46eb663f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:50 +0000
Subject: [PATCH 32/58] fix: do not schedule attributes of a nodeset that was
 rejected for & or -, it crashed

---
 cocogen/frontend/check_attributes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/check_attributes.c b/cocogen/frontend/check_attributes.c
index 2114a21..951ec95 100644
--- a/cocogen/frontend/check_attributes.c
+++ b/cocogen/frontend/check_attributes.c
@@ -27,7 +27,8 @@ node_st *CHAinodeset(node_st *node) {
         CTIobj(CTI_ERROR, true, info,
                "Cannot use intersect (&) and difference (-) operators in set "
                "expressions for nodesets with associated attributes\n");
-        CCNerrorPhase();
+        // The set of members is not known here, so do not try to schedule.
+        CCNerrorAction();
     }
 
     TRAViattributes(node);
-- 
2.43.0


From 86b66b33320eeb03bec29204eee0655947a1b40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:38 +0000
Subject: [PATCH 33/58] fix: visit children of nodesets in which not every
 member has a visit, the AST was rejected as inconsistent

---
 cocogen/dynamic_backend/gen_visit_source.c    |  2 +-
 .../attribute_scheduler/generate_visits.c     | 21 ++++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 6b1ef27..00400db 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -389,7 +389,7 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
 
 static inline bool is_desired(node_st *output, node_st *outputs) {
     assert(NODE_TYPE(output) == NT_VISIT_ARG_LIST);
-    assert(NODE_TYPE(outputs) == NT_VISIT_ARG_LIST);
+    assert(outputs == NULL || NODE_TYPE(outputs) == NT_VISIT_ARG_LIST);
     for (node_st *candidate = outputs; candidate;
          candidate = VISIT_ARG_LIST_NEXT(candidate)) {
         node_st *attr = VISIT_ARG_LIST_ATTRIBUTE(output);
diff --git a/cocogen/frontend/attribute_scheduler/generate_visits.c b/cocogen/frontend/attribute_scheduler/generate_visits.c
index b407020..ef4bb2d 100644
--- a/cocogen/frontend/attribute_scheduler/generate_visits.c
+++ b/cocogen/frontend/attribute_scheduler/generate_visits.c
@@ -371,9 +371,24 @@ add_visit_sequence_visit_nodeset(node_st *st, htable_st *visits_htable,
                                  htable_st *visit_stubs_htable, node_st *expr,
                                  node_st *child, struct visit *original_visit) {
     node_st *visit_tail = NULL;
-    return add_visit_sequence_visit_nodeset_rec(&visit_tail, st, visits_htable,
-                                                visit_stubs_htable, expr, child,
-                                                original_visit);
+    node_st *head = add_visit_sequence_visit_nodeset_rec(
+        &visit_tail, st, visits_htable, visit_stubs_htable, expr, child,
+        original_visit);
+
+    // A sequence has to start with an actual visit, so move the dummies in
+    // front of it to the end of the alternatives.
+    node_st *first = head;
+    node_st *last_dummy = NULL;
+    while (first != NULL && NODE_TYPE(first) == NT_VISIT_SEQUENCE_DUMMY) {
+        last_dummy = first;
+        first = VISIT_SEQUENCE_DUMMY_ALT(first);
+    }
+    if (first != NULL && last_dummy != NULL) {
+        VISIT_SEQUENCE_DUMMY_ALT(last_dummy) = NULL;
+        set_alt(visit_tail, head);
+    }
+
+    return first;
 }
 
 static void add_visit_sequence(node_st **visit_head, node_st **visit_tail,
-- 
2.43.0


From 59dfa256f3c15d59c745eb58edb67091a429f9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:57 +0000
Subject: [PATCH 34/58] fix: queue a child visit once, it was queued again by
 every attribute waiting for it

---
 cocogen/frontend/attribute_scheduler/generate_visits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/attribute_scheduler/generate_visits.c b/cocogen/frontend/attribute_scheduler/generate_visits.c
index ef4bb2d..9b0d1e0 100644
--- a/cocogen/frontend/attribute_scheduler/generate_visits.c
+++ b/cocogen/frontend/attribute_scheduler/generate_visits.c
@@ -181,7 +181,7 @@ static inline void sched_equation_dependency(node_st *node, node_st *st,
                    "queue\n",
                    ID_LWR(CHILD_NAME(dep_node)), visit->index);
             QUinsert(queue, new_item);
-            HTinsert(queued, visit, (void *)1);
+            HTinsert(queued, child_visit, (void *)1);
         }
     } else { // Normal dependency
         if (!HTlookup(queued, dependency)) {
-- 
2.43.0


From 73ba2cc234477bc48592d0b0f13ab52d2dd72e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:13 +0000
Subject: [PATCH 35/58] fix: put attributes of a nodeset in the same visits of
 all its members, the generated visits did not compile

---
 .../attribute_scheduler/partition_nodes.c     | 56 +++++++++++++++++
 .../attribute_scheduler/partition_nodes.h     |  2 +
 .../schedule_attribute_visits.c               | 60 +++++++++++++++++++
 3 files changed, 118 insertions(+)

diff --git a/cocogen/frontend/attribute_scheduler/partition_nodes.c b/cocogen/frontend/attribute_scheduler/partition_nodes.c
index cd27990..0a57034 100644
--- a/cocogen/frontend/attribute_scheduler/partition_nodes.c
+++ b/cocogen/frontend/attribute_scheduler/partition_nodes.c
@@ -74,6 +74,62 @@ htable_st *partition_nodes(graph_st *graph, node_st *tnode) {
     return partition_table;
 }
 
+// Move attributes after the attributes of the same node they depend on.
+bool raise_partitions(graph_st *graph, node_st *tnode,
+                      htable_st *partition_table) {
+    bool changes = false;
+    for (struct GRnode *node = graph->nodes; node != NULL; node = node->next) {
+        if (node->node != tnode) {
+            continue;
+        }
+
+        char *attribute_id = ID_LWR(ATTRIBUTE_NAME(node->attribute));
+        size_t parity = ATTRIBUTE_IS_SYNTHESIZED(node->attribute) ? 1 : 0;
+        size_t partition = (size_t)HTlookup(partition_table, attribute_id);
+        size_t new_partition = partition;
+        struct GRnode_list *next;
+        for (struct GRnode_list *entry =
+                 GRget_inter_node_dependencies(graph, node);
+             entry != NULL; entry = next) {
+            next = entry->next;
+            size_t dep_partition = (size_t)HTlookup(
+                partition_table, ID_LWR(ATTRIBUTE_NAME(entry->node->attribute)));
+            MEMfree(entry);
+            if (dep_partition % 2 != parity) {
+                ++dep_partition;
+            }
+            if (dep_partition > new_partition) {
+                new_partition = dep_partition;
+            }
+        }
+
+        if (new_partition != partition) {
+            HTinsert(partition_table, attribute_id, (void *)new_partition);
+            changes = true;
+        }
+    }
+
+    return changes;
+}
+
+// Give each of the attributes the latest of its two partitions in both tables.
+bool share_partitions(node_st *attributes, htable_st *table, htable_st *other) {
+    bool changes = false;
+    for (node_st *attr = attributes; attr != NULL;
+         attr = ATTRIBUTE_NEXT(attr)) {
+        char *attribute_id = ID_LWR(ATTRIBUTE_NAME(attr));
+        size_t first = (size_t)HTlookup(table, attribute_id);
+        size_t second = (size_t)HTlookup(other, attribute_id);
+        if (first != second) {
+            HTinsert(first < second ? table : other, attribute_id,
+                     (void *)(first < second ? second : first));
+            changes = true;
+        }
+    }
+
+    return changes;
+}
+
 static inline size_t lookup_partition(htable_st *partition_table, node_st *st,
                                       struct GRnode *node) {
     node_st *ref;
diff --git a/cocogen/frontend/attribute_scheduler/partition_nodes.h b/cocogen/frontend/attribute_scheduler/partition_nodes.h
index 600a15a..2988960 100644
--- a/cocogen/frontend/attribute_scheduler/partition_nodes.h
+++ b/cocogen/frontend/attribute_scheduler/partition_nodes.h
@@ -4,4 +4,6 @@
 #include "frontend/attribute_scheduler/graph.h"
 
 htable_st *partition_nodes(graph_st *graph, node_st *node);
+bool raise_partitions(graph_st *graph, node_st *tnode, htable_st *partition_table);
+bool share_partitions(node_st *attributes, htable_st *table, htable_st *other);
 bool repartition_nodes(graph_st *graph, node_st *node, node_st *st, htable_st *partition_tables);
diff --git a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
index 3195688..c60c607 100644
--- a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
+++ b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
@@ -403,6 +403,54 @@ void add_induced_edges(graph_st *graph, struct GRedge_list *edges,
     handle_graph_error(GRclose_transitivity(graph, new_edges));
 }
 
+// Nodes of a nodeset are visited through it, so the attributes of the nodeset
+// have to be in the same visits of every member.
+static bool share_nodeset_partitions(node_st *nodeset,
+                                     htable_st *partition_tables) {
+    bool changes = false;
+    struct node_list *nodes = NULL;
+    add_nodeset_entries(INODESET_EXPR(nodeset), &nodes);
+    for (struct node_list *entry = nodes; entry != NULL; entry = entry->next) {
+        changes |= share_partitions(INODESET_IATTRIBUTES(nodeset),
+                                    HTlookup(partition_tables, nodeset),
+                                    HTlookup(partition_tables, entry->node));
+    }
+    delete_nodelist(nodes);
+    return changes;
+}
+
+// Raise partitions until nodesets and their members agree, returns false if
+// they never do.
+static bool unify_partitions(node_st *ast, htable_st *graphs_htable,
+                             htable_st *partition_tables) {
+    size_t limit = 1;
+    for (htable_iter_st *iter = HTiterate(partition_tables); iter != NULL;
+         iter = HTiterateNext(iter)) {
+        limit += 2 * HTelementCount(HTiterValue(iter));
+    }
+
+    bool changes = true;
+    for (; changes && limit > 0; --limit) {
+        changes = false;
+        for (node_st *inode = AST_INODES(ast); inode != NULL;
+             inode = INODE_NEXT(inode)) {
+            struct graph_list *graph = HTlookup(graphs_htable, inode);
+            while (raise_partitions(graph->graph, inode,
+                                    HTlookup(partition_tables, inode))) {
+                changes = true;
+            }
+        }
+        for (node_st *nodeset = AST_INODESETS(ast); nodeset != NULL;
+             nodeset = INODESET_NEXT(nodeset)) {
+            if (HTlookup(graphs_htable, nodeset) != NULL) {
+                changes |= share_nodeset_partitions(nodeset, partition_tables);
+            }
+        }
+    }
+
+    return !changes;
+}
+
 // Create intravisit dependencies from I_i to S_i and from S_i to I_i+1:
 // i = even | i -> i - 1 i = odd  | i -> i + 3
 static inline void find_intravisit_dependencies_node(
@@ -577,6 +625,18 @@ node_st *SAVast(node_st *node) {
         HTinsert(partition_tables, nodeset, partition_table);
     }
 
+    if (!unify_partitions(node, graphs_htable, partition_tables)) {
+        CTI(CTI_ERROR, true,
+            "Could not order the attributes of the nodesets such that the "
+            "order suits all their nodes\n");
+        CCNerrorAction();
+        HTmap(graphs_htable, delete_graphs);
+        HTdelete(graphs_htable);
+        HTmap(partition_tables, delete_tables);
+        HTdelete(partition_tables);
+        return node;
+    }
+
     dump_dotfile(graphs_htable, "partitioned.dot", partition_tables);
 
 
-- 
2.43.0


From 8e7b4070d8ea7510c328f5cff8d90cfa7232ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:07 +0000
Subject: [PATCH 36/58] fix: declare nodes in the headers of equations,
 equations over links did not compile

---
 cocogen/dynamic_backend/gen_equation_functions.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/dynamic_backend/gen_equation_functions.c b/cocogen/dynamic_backend/gen_equation_functions.c
index 922b8fe..1eef61a 100644
--- a/cocogen/dynamic_backend/gen_equation_functions.c
+++ b/cocogen/dynamic_backend/gen_equation_functions.c
@@ -72,6 +72,7 @@ node_st *DGEFinode(node_st *node) {
         OUT("#include \"ccngen/ccn_defs.h\"\n");
         OUT("#include \"ccn/ccn_types.h\"\n");
         OUT("#include \"ccngen/enum.h\"\n");
+        OUT("#include \"ccngen/ast.h\"\n");
         OUT("#ifdef CCN_USES_UNSAFE\n");
         OUT("#include \"user_types.h\"\n");
         OUT("#endif\n");
-- 
2.43.0


From a8ece16aca1a350889eda04d94220ba96788fd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:17 +0000
Subject: [PATCH 37/58] fix: name the outputs of a visit after the child,
 visiting two children of one type did not compile

---
 cocogen/dynamic_backend/gen_visit_source.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 00400db..dd9535b 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -444,7 +444,8 @@ static void print_visit_call(node_st *node, node_st *outputs,
             }
         } else { // multiple output
             multiple_outputs = true;
-            OUT("struct %s_out %s_output", visit_name, visit_name);
+            OUT("struct %s_out %s_%s_output", visit_name,
+                ID_LWR(CHILD_NAME(child)), visit_name);
             print_unused();
             OUT_NO_INDENT(" = ");
         }
@@ -476,10 +477,10 @@ static void print_visit_call(node_st *node, node_st *outputs,
                 print_type(ATTRIBUTE_REFERENCE_REFERENCE(attribute));
                 OUT_NO_INDENT(" ");
             }
-            OUT_NO_INDENT("%s_%s = %s_output.%s_%s;\n",
-                          ID_LWR(CHILD_NAME(VISIT_SEQUENCE_VISIT_CHILD(node))),
+            OUT_NO_INDENT("%s_%s = %s_%s_output.%s_%s;\n",
+                          ID_LWR(CHILD_NAME(child)),
                           ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)),
-                          visit_name, get_node_name_this(attribute),
+                          ID_LWR(CHILD_NAME(child)), visit_name, get_node_name_this(attribute),
                           ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
         }
     }
-- 
2.43.0


From 854d23ecacf8ac55f446181fe9148242691375b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:17 +0000
Subject: [PATCH 38/58] fix: ignore outputs of nodeset members with another
 type than the declared one, the visits did not compile

---
 cocogen/dynamic_backend/gen_visit_source.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index dd9535b..7ea397b 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -387,6 +387,20 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
     return node;
 }
 
+// Nodes of a nodeset might have attributes with the same name that are not
+// attributes of the nodeset, these can differ in type.
+static inline bool has_same_type(node_st *first, node_st *second) {
+    if (ATTRIBUTE_TYPE(first) != ATTRIBUTE_TYPE(second)) {
+        return false;
+    }
+    if (ATTRIBUTE_TYPE(first) == AT_link_or_enum ||
+        ATTRIBUTE_TYPE(first) == AT_user) {
+        return STReq(ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(first)),
+                     ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(second)));
+    }
+    return true;
+}
+
 static inline bool is_desired(node_st *output, node_st *outputs) {
     assert(NODE_TYPE(output) == NT_VISIT_ARG_LIST);
     assert(outputs == NULL || NODE_TYPE(outputs) == NT_VISIT_ARG_LIST);
@@ -395,7 +409,9 @@ static inline bool is_desired(node_st *output, node_st *outputs) {
         node_st *attr = VISIT_ARG_LIST_ATTRIBUTE(output);
         node_st *cand_attr = VISIT_ARG_LIST_ATTRIBUTE(candidate);
         if (STReq(ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attr)),
-                  ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(cand_attr)))) {
+                  ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(cand_attr))) &&
+            has_same_type(ATTRIBUTE_REFERENCE_REFERENCE(attr),
+                          ATTRIBUTE_REFERENCE_REFERENCE(cand_attr))) {
             return true;
         }
     }
-- 
2.43.0


From f30502f622a9ee86345eac3aca15701e1f493e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:17 +0000
Subject: [PATCH 39/58] fix: store inherited attributes in the child when they
 are evaluated, equations could read them before and later visits lacked them

---
 cocogen/dynamic_backend/gen_visit_source.c | 103 ++++++++++++++++-----
 1 file changed, 81 insertions(+), 22 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 7ea397b..4de2621 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -214,6 +214,74 @@ static inline node_st *get_child(node_st *child_name) {
     return NULL;
 }
 
+// Print how to read an attribute of a child, through the type of the child.
+static inline void print_child_attribute(node_st *node_type,
+                                         node_st *attribute_name,
+                                         node_st *child_name) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    OUT_NO_INDENT("%s_%s(%s_%s(node))", ID_UPR(node_type),
+                  ID_UPR(attribute_name), ID_UPR(INODE_NAME(curr_node)),
+                  ID_UPR(child_name));
+}
+
+static inline void print_store_child_value(node_st *type_name, node_st *child,
+                                           node_st *attribute) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    char *field = STRfmt(
+        "%s_%s(node)->data.N_%s->_%s", ID_UPR(INODE_NAME(curr_node)),
+        ID_UPR(CHILD_NAME(child)), ID_LWR(type_name),
+        ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
+    OUT("%s.ccn_val_set = true;\n", field);
+    OUT("%s.%s = %s_%s;\n", field,
+        ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)),
+        get_node_name_this(attribute),
+        ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
+    MEMfree(field);
+}
+
+static void print_store_member_values(node_st *expr, node_st *child,
+                                      node_st *attribute) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    if (expr == NULL) {
+        return;
+    }
+
+    assert(NODE_TYPE(expr) == NT_SETLITERAL);
+    OUT_BEGIN_CASE("NT_%s", ID_UPR(SETLITERAL_REFERENCE(expr)));
+    print_store_child_value(SETLITERAL_REFERENCE(expr), child, attribute);
+    OUT_END_CASE();
+    print_store_member_values(SETLITERAL_LEFT(expr), child, attribute);
+    print_store_member_values(SETLITERAL_RIGHT(expr), child, attribute);
+}
+
+// Store an inherited attribute in the child as soon as it is evaluated: other
+// equations might use it before the child is visited, and the visit might be
+// part of a later visit of this node.
+static inline void print_set_child_value(node_st *attribute) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    node_st *child = get_child(ATTRIBUTE_REFERENCE_INODE(attribute));
+    assert(child != NULL);
+    char *child_access = STRfmt("%s_%s(node)", ID_UPR(INODE_NAME(curr_node)),
+                                ID_UPR(CHILD_NAME(child)));
+
+    OUT_BEGIN_IF("%s != NULL", child_access);
+    if (CHILD_TYPE(child) == CT_inodeset) {
+        node_st *nodeset = STlookup(ste, CHILD_TYPE_REFERENCE(child));
+        assert(nodeset != NULL && NODE_TYPE(nodeset) == NT_INODESET);
+        OUT_BEGIN_SWITCH("NODE_TYPE(%s)", child_access);
+        print_store_member_values(INODESET_EXPR(nodeset), child, attribute);
+        OUT_BEGIN_DEFAULT_CASE();
+        OUT("DBUG_ASSERT(false, \"Problem in visit\");\n");
+        OUT_END_CASE();
+        OUT_END_SWITCH();
+    } else {
+        print_store_child_value(CHILD_TYPE_REFERENCE(child), child, attribute);
+    }
+    OUT_END_IF();
+
+    MEMfree(child_access);
+}
+
 static inline void print_equation_args(node_st *equation,
                                        htable_st *children_null) {
     GeneratorContext *ctx = globals.gen_ctx;
@@ -236,26 +304,14 @@ static inline void print_equation_args(node_st *equation,
             OUT_NO_INDENT(", ");
         }
 
-        // // Classic attribute dependency
-        // if (!ATTRIBUTE_IS_INHERITED(reference) &&
-        //     !ATTRIBUTE_IS_SYNTHESIZED(reference)) {
-            node_st *node_name = INODE_NAME(curr_node);
-            assert(node_name != NULL);
-            if (is_child) {
-                node_name = ATTRIBUTE_REFERENCE_NODE_TYPE(attribute);
-            }
-            OUT_NO_INDENT("%s_%s(", ID_UPR(node_name),
+        if (is_child) {
+            print_child_attribute(ATTRIBUTE_REFERENCE_NODE_TYPE(attribute),
+                                  ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute),
+                                  ATTRIBUTE_REFERENCE_INODE(attribute));
+        } else {
+            OUT_NO_INDENT("%s_%s(node)", ID_UPR(INODE_NAME(curr_node)),
                           ID_UPR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
-            if (is_child) {
-                OUT_NO_INDENT("%s_%s(node))", ID_UPR(INODE_NAME(curr_node)),
-                              ID_UPR(ATTRIBUTE_REFERENCE_INODE(attribute)));
-            } else {
-                OUT_NO_INDENT("node)");
-            }
-        // } else {
-        //     OUT_NO_INDENT("%s_%s", get_node_name_this(attribute),
-        //                   ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
-        // }
+        }
     }
 }
 
@@ -378,6 +434,8 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
 
         print_set_value(ATTRIBUTE_REFERENCE_REFERENCE(attribute), arg_str);
         MEMfree(arg_str);
+    } else { // attribute of child
+        print_set_child_value(attribute);
     }
 
     HTdelete(children_null);
@@ -474,9 +532,10 @@ static void print_visit_call(node_st *node, node_st *outputs,
     for (node_st *in_arg = VISIT_INPUTS(visit); in_arg;
          in_arg = VISIT_ARG_LIST_NEXT(in_arg)) {
         node_st *attribute = VISIT_ARG_LIST_ATTRIBUTE(in_arg);
-        OUT_NO_INDENT(", %s_%s",
-                      ID_LWR(CHILD_NAME(VISIT_SEQUENCE_VISIT_CHILD(node))),
-                      ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
+        OUT_NO_INDENT(", ");
+        print_child_attribute(INODE_NAME(VISIT_INODE(visit)),
+                              ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute),
+                              CHILD_NAME(child));
     }
 
     OUT_NO_INDENT(");\n");
-- 
2.43.0


From a46d11619eb7176a1970f2275884bb7d1f54ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:21 +0000
Subject: [PATCH 40/58] fix: generate the variants of an equation in the order
 of its arguments, every generation wrote other code

---
 .../dynamic_backend/gen_equation_functions.c    |  8 ++++----
 cocogen/dynamic_backend/gen_user_equations.c    |  8 ++++----
 cocogen/dynamic_backend/gen_visit_source.c      | 17 +++++++++--------
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_equation_functions.c b/cocogen/dynamic_backend/gen_equation_functions.c
index 1eef61a..42efa30 100644
--- a/cocogen/dynamic_backend/gen_equation_functions.c
+++ b/cocogen/dynamic_backend/gen_equation_functions.c
@@ -148,12 +148,12 @@ node_st *DGEFequation(node_st *node) {
     for (size_t bitmask = 0; bitmask < combinations; ++bitmask) {
         // Set bitmask in htable
         size_t i = 0;
-        for (htable_iter_st *iter = HTiterate(children_null); iter;
-             iter = HTiterateNext(iter)) {
+        for (struct child_list *entry = children; entry;
+             entry = entry->next) {
             if (bitmask & (0x1UL << i)) {
-                HTiterSetValue(iter, (void *)CH_FALSE);
+                HTinsert(children_null, entry->child, (void *)CH_FALSE);
             } else {
-                HTiterSetValue(iter, (void *)CH_TRUE);
+                HTinsert(children_null, entry->child, (void *)CH_TRUE);
             }
             ++i;
         }
diff --git a/cocogen/dynamic_backend/gen_user_equations.c b/cocogen/dynamic_backend/gen_user_equations.c
index dcd5a95..6ca5c5a 100644
--- a/cocogen/dynamic_backend/gen_user_equations.c
+++ b/cocogen/dynamic_backend/gen_user_equations.c
@@ -148,12 +148,12 @@ node_st *DUGEequation(node_st *node) {
     for (size_t bitmask = 0; bitmask < combinations; ++bitmask) {
         // Set bitmask in htable
         size_t i = 0;
-        for (htable_iter_st *iter = HTiterate(children_null); iter;
-             iter = HTiterateNext(iter)) {
+        for (struct child_list *entry = children; entry;
+             entry = entry->next) {
             if (bitmask & (0x1UL << i)) {
-                HTiterSetValue(iter, (void *)CH_FALSE);
+                HTinsert(children_null, entry->child, (void *)CH_FALSE);
             } else {
-                HTiterSetValue(iter, (void *)CH_TRUE);
+                HTinsert(children_null, entry->child, (void *)CH_TRUE);
             }
             ++i;
         }
diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 4de2621..4ad4f6d 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -365,12 +365,12 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
         for (size_t bitmask = 0; bitmask < combinations; ++bitmask) {
             // Set bitmask in htable
             size_t i = 0;
-            for (htable_iter_st *iter = HTiterate(children_null); iter;
-                 iter = HTiterateNext(iter)) {
+            for (struct child_list *entry = children; entry;
+                 entry = entry->next) {
                 if (bitmask & (0x1UL << i)) {
-                    HTiterSetValue(iter, (void *)CH_TRUE);
+                    HTinsert(children_null, entry->child, (void *)CH_TRUE);
                 } else {
-                    HTiterSetValue(iter, (void *)CH_FALSE);
+                    HTinsert(children_null, entry->child, (void *)CH_FALSE);
                 }
                 ++i;
             }
@@ -378,10 +378,11 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
             if (bitmask != combinations - 1) {
                 OUT_NO_INDENT("if (");
                 bool first = true;
-                for (htable_iter_st *iter = HTiterate(children_null); iter;
-                     iter = HTiterateNext(iter)) {
-                    node_st *child = HTiterKey(iter);
-                    if ((enum child_htable)HTiterValue(iter) == CH_FALSE) {
+                for (struct child_list *entry = children; entry;
+                     entry = entry->next) {
+                    node_st *child = entry->child;
+                    if ((enum child_htable)HTlookup(children_null, child) ==
+                        CH_FALSE) {
                         if (first) {
                             first = false;
                         } else {
-- 
2.43.0


From ea47e3331f67f4f57c4d020349a74e6f125dd0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:58 +0000
Subject: [PATCH 41/58] fix: reject names that are taken in the generated code,
 and keep the table of the cleanup phase apart, accepted specifications did
 not compile

---
 cocogen/frontend/check_existance.c      | 57 +++++++++++++++++++++++++
 cocogen/phase_driver/gen_action_array.c |  2 +-
 cocogen/phase_driver/gen_ids_table.c    |  2 +-
 3 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 048d88b..2540168 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -46,6 +46,55 @@ void checkUID(node_st *id)
     }
 }
 
+// Names of children and attributes that are taken in the generated code, where
+// they are fields and parameters in lower case.
+static char *field_reserved[] = {
+    "auto", "break", "case", "char", "const", "continue", "default", "do",
+    "double", "else", "enum", "extern", "float", "for", "goto", "if", "inline",
+    "int", "long", "register", "restrict", "return", "short", "signed",
+    "sizeof", "static", "struct", "switch", "typedef", "union", "unsigned",
+    "void", "volatile", "while", "bool", "false", "true", "node", "node_st",
+};
+
+// TRAV<child> is generated for every child, these are functions of the runtime.
+static char *child_reserved[] = {
+    "error", "getCurrent", "nop", "opt", "pop", "push",
+};
+
+static void errorReserved(node_st *id)
+{
+    struct ctinfo info;
+    id_to_info(id, &info);
+    CTIobj(CTI_ERROR, true, info, "Name is reserved: %s\n", ID_ORIG(id));
+}
+
+static void checkFieldName(node_st *id)
+{
+    for (unsigned int i = 0; i < sizeof(field_reserved)/sizeof(field_reserved[0]); i++) {
+        if (STReq(ID_LWR(id), field_reserved[i])) {
+            errorReserved(id);
+        }
+    }
+}
+
+static void checkChildName(node_st *id)
+{
+    checkFieldName(id);
+    for (unsigned int i = 0; i < sizeof(child_reserved)/sizeof(child_reserved[0]); i++) {
+        if (STReq(ID_ORIG(id), child_reserved[i])) {
+            errorReserved(id);
+        }
+    }
+}
+
+// Every generated enum has an entry NULL.
+static void checkEnumerator(node_st *id)
+{
+    if (id != NULL && STReq(ID_LWR(id), "null")) {
+        errorReserved(id);
+    }
+}
+
 // Report a phase that is found while its own actions are searched.
 static void checkCircularPhase(htable_st *seen, node_st *phase)
 {
@@ -108,6 +157,7 @@ node_st *CEXiactions(node_st *node)
 node_st *CEXiphase(node_st *node)
 {
     checkUID(IPHASE_IPREFIX(node));
+    checkEnumerator(IPHASE_NAME(node));
     if (IPHASE_IS_START(node)) {
         if (seen_start_phase) {
             CTI(CTI_ERROR, true, "Double definition of a starting phase.");
@@ -124,6 +174,8 @@ node_st *CEXiphase(node_st *node)
 node_st *CEXitraversal(node_st *node)
 {
     checkUID(ITRAVERSAL_IPREFIX(node));
+    checkEnumerator(ITRAVERSAL_NAME(node));
+    checkEnumerator(ITRAVERSAL_IPREFIX(node));
     if (trav_data_names != NULL) {
         CCNfree(trav_data_names);
     }
@@ -169,6 +221,7 @@ node_st  *CEXitravdata(node_st *node)
 node_st *CEXipass(node_st *node)
 {
     checkUID(IPASS_IPREFIX(node));
+    checkEnumerator(IPASS_NAME(node));
     TRAVchildren(node);
     return node;
 }
@@ -180,6 +233,7 @@ node_st *CEXinode(node_st *node)
         id_to_info(INODE_NAME(node), &info);
         CTIobj(CTI_ERROR, true, info, "Can not call node 'node'.");
     }
+    checkEnumerator(INODE_NAME(node));
     if (INODE_IS_ROOT(node)) {
         if (!seen_root_node) {
             AST_ROOT_NODE(root) = node;
@@ -200,6 +254,7 @@ node_st *CEXinode(node_st *node)
 
 node_st *CEXinodeset(node_st *node)
 {
+    checkEnumerator(INODESET_NAME(node));
     TRAViattributes(node);
     TRAVexpr(node);
     if (node_ste != NULL) {
@@ -218,6 +273,7 @@ node_st *CEXnodeset_child_entry(node_st *node)
 
 node_st *CEXchild(node_st *node)
 {
+    checkChildName(CHILD_NAME(node));
     node_st *ref = STlookup(ste, CHILD_TYPE_REFERENCE(node));
     if (!ref) {
         struct ctinfo info;
@@ -289,6 +345,7 @@ node_st *CEXsetliteral(node_st *node)
 
 node_st *CEXattribute(node_st *node)
 {
+    checkFieldName(ATTRIBUTE_NAME(node));
     if (STlookup(node_ste, ATTRIBUTE_NAME(node)) == NULL) {
         node_ste = STadd(node_ste, ATTRIBUTE_NAME(node), node);
     } else {
diff --git a/cocogen/phase_driver/gen_action_array.c b/cocogen/phase_driver/gen_action_array.c
index 08cefe2..df1ea73 100644
--- a/cocogen/phase_driver/gen_action_array.c
+++ b/cocogen/phase_driver/gen_action_array.c
@@ -29,7 +29,7 @@ node_st *GAAast(node_st *node)
         "{TRAV_free,},},\n", enum_action_pref);
 
     OUT("{CCN_ACTION_PHASE, %s_cleanup, \"Cleanup\", .phase = {NULL, NT_%s, "
-        "cleanup_ids_table, false, %s_cleanup,},},\n",
+        "CCNcleanup_ids_table, false, %s_cleanup,},},\n",
         enum_action_pref, ID_UPR(INODE_NAME(AST_ROOT_NODE(ast))), enum_action_pref);
 
     OUT("};\n\n");
diff --git a/cocogen/phase_driver/gen_ids_table.c b/cocogen/phase_driver/gen_ids_table.c
index 0f1b20c..42eefe1 100644
--- a/cocogen/phase_driver/gen_ids_table.c
+++ b/cocogen/phase_driver/gen_ids_table.c
@@ -24,7 +24,7 @@ node_st *GITast(node_st *node)
     OUT("#include \"ccn/phase_driver.h\"\n");
 
     ast = node;
-    OUT("enum %s cleanup_ids_table[2] = { %s_free, %s_NULL };\n", enum_action_name, enum_action_pref, enum_action_pref);
+    OUT("enum %s CCNcleanup_ids_table[2] = { %s_free, %s_NULL };\n", enum_action_name, enum_action_pref, enum_action_pref);
     TRAVchildren(node);
     return node;
 }
-- 
2.43.0


From 2803982332928347d445448c948cd10d9dd8e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:19 +0000
Subject: [PATCH 42/58] fix: keep names of traversals out of the structures of
 their data, and the uid AST from traversals, generated code did not compile

---
 cocogen/dynamic_backend/gen_trav_data_ctors.c   | 8 ++++----
 cocogen/dynamic_backend/gen_trav_data_getters.c | 4 ++--
 cocogen/dynamic_backend/gen_trav_data_union.c   | 4 ++--
 cocogen/frontend/check_existance.c              | 4 ++++
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_trav_data_ctors.c b/cocogen/dynamic_backend/gen_trav_data_ctors.c
index 9863366..eded117 100644
--- a/cocogen/dynamic_backend/gen_trav_data_ctors.c
+++ b/cocogen/dynamic_backend/gen_trav_data_ctors.c
@@ -20,16 +20,16 @@ node_st *DGTDCitraversal(node_st *node)
         OUT_FIELD("extern void %sfini()", ID_UPR(ITRAVERSAL_IPREFIX(node)));
 
         OUT_START_FUNC("void TRAVdataInit%s(ccn_trav_st *trav)", ID_ORIG(id));
-        OUT_FIELD("trav->trav_data.%s = MEMmalloc(sizeof(struct data_%s))",
-                  ID_LWR(id), ID_LWR(ITRAVERSAL_IPREFIX(node)));
-        OUT_FIELD("struct data_%s *data = trav->trav_data.%s", ID_LWR(ITRAVERSAL_IPREFIX(node)), ID_LWR(id));
+        OUT_FIELD("trav->trav_data.data_%s = MEMmalloc(sizeof(struct data_%s))",
+                  ID_LWR(ITRAVERSAL_IPREFIX(node)), ID_LWR(ITRAVERSAL_IPREFIX(node)));
+        OUT_FIELD("struct data_%s *data = trav->trav_data.data_%s", ID_LWR(ITRAVERSAL_IPREFIX(node)), ID_LWR(ITRAVERSAL_IPREFIX(node)));
         TRAVdata(node);
         OUT_FIELD("%sinit()", ID_UPR(ITRAVERSAL_IPREFIX(node)));
         OUT_END_FUNC();
 
         OUT_START_FUNC("void TRAVdataFree%s(ccn_trav_st *trav)", ID_ORIG(id));
         OUT_FIELD("%sfini()", ID_UPR(ITRAVERSAL_IPREFIX(node)));
-        OUT_FIELD("MEMfree(trav->trav_data.%s)", ID_LWR(id));
+        OUT_FIELD("MEMfree(trav->trav_data.data_%s)", ID_LWR(ITRAVERSAL_IPREFIX(node)));
         OUT_END_FUNC();
     }
     TRAVnext(node);
diff --git a/cocogen/dynamic_backend/gen_trav_data_getters.c b/cocogen/dynamic_backend/gen_trav_data_getters.c
index 00d9a6d..39235d0 100644
--- a/cocogen/dynamic_backend/gen_trav_data_getters.c
+++ b/cocogen/dynamic_backend/gen_trav_data_getters.c
@@ -10,8 +10,8 @@ node_st *DGTDGitraversal(node_st *node)
     if (ITRAVERSAL_DATA(node)) {
         node_st *id =  ITRAVERSAL_IPREFIX(node);
 
-        OUT("#define DATA_%s_GET() (TRAVgetCurrent()->trav_data.%s)\n",
-            ID_UPR(id), ID_LWR(ITRAVERSAL_NAME(node)));
+        OUT("#define DATA_%s_GET() (TRAVgetCurrent()->trav_data.data_%s)\n",
+            ID_UPR(id), ID_LWR(id));
     }
 
     TRAVnext(node);
diff --git a/cocogen/dynamic_backend/gen_trav_data_union.c b/cocogen/dynamic_backend/gen_trav_data_union.c
index d1cc85a..46f1abf 100644
--- a/cocogen/dynamic_backend/gen_trav_data_union.c
+++ b/cocogen/dynamic_backend/gen_trav_data_union.c
@@ -33,9 +33,9 @@ node_st *DGTDUast(node_st *node)
 node_st *DGTDUitraversal(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    node_st *id = ITRAVERSAL_NAME(node);
+    node_st *id = ITRAVERSAL_IPREFIX(node);
     if (ITRAVERSAL_DATA(node)) {
-        OUT_FIELD("struct data_%s *%s", ID_LWR(ITRAVERSAL_IPREFIX(node)), ID_LWR(id));
+        OUT_FIELD("struct data_%s *data_%s", ID_LWR(id), ID_LWR(id));
     }
     TRAVnext(node);
     return node;
diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 2540168..1cd6eab 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -176,6 +176,10 @@ node_st *CEXitraversal(node_st *node)
     checkUID(ITRAVERSAL_IPREFIX(node));
     checkEnumerator(ITRAVERSAL_NAME(node));
     checkEnumerator(ITRAVERSAL_IPREFIX(node));
+    if (STReq(ID_UPR(ITRAVERSAL_IPREFIX(node)), "AST")) {
+        // The constructors of nodes are called AST<node>.
+        errorReserved(ITRAVERSAL_IPREFIX(node));
+    }
     if (trav_data_names != NULL) {
         CCNfree(trav_data_names);
     }
-- 
2.43.0


From 601e5a68621ee9d1caad014985c9cda97ebf40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:05 +0000
Subject: [PATCH 43/58] fix: generate the name of an action that is referenced
 with its uid, generated code did not compile

---
 cocogen/phase_driver/gen_ids_table.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cocogen/phase_driver/gen_ids_table.c b/cocogen/phase_driver/gen_ids_table.c
index 42eefe1..7f46eae 100644
--- a/cocogen/phase_driver/gen_ids_table.c
+++ b/cocogen/phase_driver/gen_ids_table.c
@@ -3,6 +3,7 @@
 #include "gen_helpers/out_macros.h"
 #include "ccn/dynamic_core.h"
 #include "ccngen/trav.h"
+#include "frontend/symboltable.h"
 #include "globals.h"
 
 static node_st *ast;
@@ -32,7 +33,21 @@ node_st *GITast(node_st *node)
 node_st *GITiactions(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    OUT("%s_%s, ", enum_action_pref, ID_UPR(IACTIONS_REFERENCE(node)));
+    // Can be referenced with its uid, but the enum holds the names.
+    node_st *action = STlookup(AST_STABLE(ast), IACTIONS_REFERENCE(node));
+    node_st *name = NULL;
+    switch (NODE_TYPE(action)) {
+    case NT_IPHASE:
+        name = IPHASE_NAME(action);
+        break;
+    case NT_ITRAVERSAL:
+        name = ITRAVERSAL_NAME(action);
+        break;
+    default:
+        name = IPASS_NAME(action);
+        break;
+    }
+    OUT("%s_%s, ", enum_action_pref, ID_UPR(name));
     TRAVnext(node);
     return node;
 }
-- 
2.43.0


From b36acb4e1772fb38f99d685c9382031c02f525eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:20 +0000
Subject: [PATCH 44/58] fix: reject children named this, variables of their
 attributes are those of the node, generated code did not compile

---
 cocogen/frontend/check_existance.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 1cd6eab..ddcd1d6 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -80,6 +80,10 @@ static void checkFieldName(node_st *id)
 static void checkChildName(node_st *id)
 {
     checkFieldName(id);
+    // Variables of this.attr and of attr of a child named this are the same.
+    if (STReq(ID_LWR(id), "this")) {
+        errorReserved(id);
+    }
     for (unsigned int i = 0; i < sizeof(child_reserved)/sizeof(child_reserved[0]); i++) {
         if (STReq(ID_ORIG(id), child_reserved[i])) {
             errorReserved(id);
-- 
2.43.0


From 6c4d49263d2d8da614f8f6d776e7d82426242be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:08 +0000
Subject: [PATCH 45/58] fix: name the node, not read it as a nodeset, when
 reporting a redeclared attribute of a nodeset

---
 cocogen/frontend/nodesets/propagate_attributes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/nodesets/propagate_attributes.c b/cocogen/frontend/nodesets/propagate_attributes.c
index 5f441b8..a4e43ec 100644
--- a/cocogen/frontend/nodesets/propagate_attributes.c
+++ b/cocogen/frontend/nodesets/propagate_attributes.c
@@ -57,7 +57,7 @@ static bool check_classic_exception(node_st *node, node_st *parent_attr,
                "redeclared in node '%s' without the constructor keyword\n",
                ID_ORIG(ATTRIBUTE_NAME(parent_attr)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)),
-               ID_ORIG(INODESET_NAME(node)));
+               ID_ORIG(INODE_NAME(node)));
         CCNerrorAction();
     } else if (ATTRIBUTE_IS_INHERITED(child_attr) ||
                ATTRIBUTE_IS_SYNTHESIZED(child_attr) ||
@@ -66,7 +66,7 @@ static bool check_classic_exception(node_st *node, node_st *parent_attr,
                "Redeclaration of attribute '%s' in node '%s' has a different "
                "signature than the attribute in parent nodeset '%s'\n",
                ID_ORIG(ATTRIBUTE_NAME(parent_attr)),
-               ID_ORIG(INODESET_NAME(node)),
+               ID_ORIG(INODE_NAME(node)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)));
         CCNerrorAction();
     }
-- 
2.43.0


From 335f05ed7c194c4c98c4e5d012ad346e8f090871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:22 +0000
Subject: [PATCH 46/58] fix: reject an argument named twice in one equation,
 generated code did not compile

---
 cocogen/frontend/check_product_rules.c | 56 ++++++++++++++++++++------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index eeced5d..effab6f 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -3,8 +3,6 @@
  *
  * Traversal: checkProductRules
  * UID      : CPR
- *
- * TODO: prevent duplicate args
  */
 
 #include <assert.h>
@@ -112,6 +110,21 @@ static node_st *find_attribute(node_st *node, node_st *attr_list,
     return NULL;
 }
 
+static bool is_reference_to(node_st *reference, node_st *node_name,
+                            node_st *attribute_name) {
+    node_st *ref_node = ATTRIBUTE_REFERENCE_INODE(reference);
+    // Check same node (NULL == this)
+    if ((node_name == NULL && ref_node == NULL) ||
+        (node_name != NULL && ref_node != NULL &&
+         STReq(ID_LWR(node_name), ID_LWR(ref_node)))) {
+        // Check same attribute
+        return STReq(ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(reference)),
+                     ID_LWR(attribute_name));
+    }
+
+    return false;
+}
+
 static node_st *find_product_rule(node_st *equation_list, node_st *node_name,
                                   node_st *attribute_name) {
     /* TODO: might want to cache product rules in hash table so we don't loop
@@ -119,16 +132,20 @@ static node_st *find_product_rule(node_st *equation_list, node_st *node_name,
        htable[eq_list][node_name][attr_name] on subsequent calls. */
     for (node_st *eq = equation_list; eq != NULL; eq = EQUATION_NEXT(eq)) {
         node_st *can = EQUATION_RULE(eq);
-        node_st *can_node = ATTRIBUTE_REFERENCE_INODE(can);
-        // Check same node (NULL == this)
-        if ((node_name == NULL && can_node == NULL) ||
-            (node_name != NULL && can_node != NULL &&
-             STReq(ID_LWR(node_name), ID_LWR(can_node)))) {
-            // Check same attribute
-            if (STReq(ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(can)),
-                      ID_LWR(attribute_name))) {
-                return can;
-            }
+        if (is_reference_to(can, node_name, attribute_name)) {
+            return can;
+        }
+    }
+
+    return NULL;
+}
+
+static node_st *find_argument(node_st *args, node_st *node_name,
+                              node_st *attribute_name) {
+    for (node_st *arg = args; arg != NULL; arg = EQUATION_DEPENDENCY_NEXT(arg)) {
+        node_st *can = EQUATION_DEPENDENCY_IATTRIBUTE(arg);
+        if (is_reference_to(can, node_name, attribute_name)) {
+            return can;
         }
     }
 
@@ -300,7 +317,20 @@ node_st *CPRequation(node_st *node) {
  * @fn CPRequation
  */
 node_st *CPRequation_dependency(node_st *node) {
-    check_attribute_reference(EQUATION_DEPENDENCY_IATTRIBUTE(node), false);
+    node_st *arg = EQUATION_DEPENDENCY_IATTRIBUTE(node);
+    check_attribute_reference(arg, false);
+    if (find_argument(EQUATION_DEPENDENCY_NEXT(node),
+                      ATTRIBUTE_REFERENCE_INODE(arg),
+                      ATTRIBUTE_REFERENCE_IATTRIBUTE(arg)) != NULL) {
+        struct ctinfo info;
+        id_to_info(ATTRIBUTE_REFERENCE_IATTRIBUTE(arg), &info);
+        CTIobj(CTI_ERROR, true, info,
+               "Attribute '%s' is an argument of the same equation several "
+               "times in node '%s'\n",
+               ID_ORIG(ATTRIBUTE_REFERENCE_IATTRIBUTE(arg)),
+               ID_ORIG(INODE_NAME(DATA_CPR_GET()->curr_node)));
+        CCNerrorAction();
+    }
     TRAVnext(node);
     return node;
 }
-- 
2.43.0


From 091128280061a2acbca663f4a9429b841add8300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:06 +0000
Subject: [PATCH 47/58] fix: fail when generated code can not be written, the
 exit status was that of success

---
 cocogen/generator/generator.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cocogen/generator/generator.c b/cocogen/generator/generator.c
index a538476..215933c 100644
--- a/cocogen/generator/generator.c
+++ b/cocogen/generator/generator.c
@@ -38,11 +38,17 @@ void GNindentDecrease(GeneratorContext *ctx)
     ctx->indent_level--;
 }
 
+static void WriteFailed()
+{
+    perror("Could not write generated code");
+    exit(1);
+}
+
 void GNopenFile(GeneratorContext *ctx, const char *filename)
 {
     printf("Opening: %s\n", filename);
-    if (ctx->fp) {
-        fclose(ctx->fp);
+    if (ctx->fp && fclose(ctx->fp) != 0) {
+        WriteFailed();
     }
     ctx->fp = fopen(filename, "w");
     if (!ctx->fp) {
@@ -116,5 +122,7 @@ void GNprint(GeneratorContext *ctx, unsigned int style, const char *fmt, ...)
         GNindentDecrease(ctx);
     }
 
-    fflush(ctx->fp);
+    if (fflush(ctx->fp) != 0 || ferror(ctx->fp)) {
+        WriteFailed();
+    }
 }
-- 
2.43.0


From c46390bf64e446696b605032783782ca774620ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:06 +0000
Subject: [PATCH 48/58] fix: take the documented option -b, and make --verbose
 do what -v does

---
 cocogen/commandline.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cocogen/commandline.c b/cocogen/commandline.c
index 3242992..228fee7 100644
--- a/cocogen/commandline.c
+++ b/cocogen/commandline.c
@@ -71,7 +71,7 @@ void CLprocessArgs(int argc, char *argv[]) {
 
     // TODO: remove the hardcoded identifiers.
     static struct option long_options[] = {
-        {"verbose", no_argument, &global_command_line.verbose, 1},
+        {"verbose", no_argument, 0, 'v'},
         {"help", no_argument, 0, 'h'},
         {"dot", required_argument, 0, 23},
         {"version", no_argument, 0, 20},
@@ -94,7 +94,7 @@ void CLprocessArgs(int argc, char *argv[]) {
     char *endptr;
 
     while (1) {
-        c = getopt_long(argc, argv, "v", long_options, &option_index);
+        c = getopt_long(argc, argv, "vb:", long_options, &option_index);
 
         // End of options
         if (c == -1)
@@ -135,6 +135,7 @@ void CLprocessArgs(int argc, char *argv[]) {
         case 32:
             global_command_line.show_ast = true;
             break;
+        case 'b':
         case 33:
             CCNsetBreakpoint(optarg);
             break;
-- 
2.43.0


From fac1c351146742a03cc9f7afd310739885173638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:06 +0000
Subject: [PATCH 49/58] fix: refuse an empty --gen-dir, it was read out of
 bounds and could mean the root directory

---
 cocogen/commandline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cocogen/commandline.c b/cocogen/commandline.c
index 228fee7..f89bfe7 100644
--- a/cocogen/commandline.c
+++ b/cocogen/commandline.c
@@ -166,6 +166,10 @@ void CLprocessArgs(int argc, char *argv[]) {
     if (global_command_line.gen_dir == NULL) {
         global_command_line.gen_dir = "ccngen/";
     }
+    if (global_command_line.gen_dir[0] == '\0') {
+        printf("CLI: The directory to generate code in has no name. Exiting.\n");
+        exit(EXIT_FAILURE);
+    }
     global_command_line.gen_dir = FSdirifyString(global_command_line.gen_dir);
 
     if (optind == argc - 1) {
-- 
2.43.0


From bbbe9ad33e4cfdf349c27d9b7ec61d63ad9c28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:06 +0000
Subject: [PATCH 50/58] fix: refuse numbers for --ag-scheduler-max-iter that
 are followed by something else

---
 cocogen/commandline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/commandline.c b/cocogen/commandline.c
index f89bfe7..a3ae03d 100644
--- a/cocogen/commandline.c
+++ b/cocogen/commandline.c
@@ -148,7 +148,7 @@ void CLprocessArgs(int argc, char *argv[]) {
         case 36:
             global_command_line.ag_scheduler_max_iter = strtoul(optarg, &endptr,
                                                                 10);
-            if (endptr == optarg) {
+            if (endptr == optarg || *endptr != '\0') {
                 printf("CLI: Error parsing ag max iter. Could not convert '%s' "
                        "to an integer. Exiting.\n", optarg);
                 exit(EXIT_FAILURE);
-- 
2.43.0


From 8ae025209f0399e8e846775ad8c41cbdcf6e129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:06 +0000
Subject: [PATCH 51/58] fix: refuse backends that do not exist, nothing was
 generated and the exit status was that of success

---
 cocogen/commandline.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cocogen/commandline.c b/cocogen/commandline.c
index a3ae03d..5a4abf2 100644
--- a/cocogen/commandline.c
+++ b/cocogen/commandline.c
@@ -7,6 +7,7 @@
 #include <string.h>
 #include "filesystem/utils.h"
 #include "ccn/ccn.h"
+#include "palm/str.h"
 
 extern char *yy_filename;
 
@@ -56,7 +57,7 @@ void Usage(char *program) {
  //          "compiler, generates an API for this.\n");
     //printf("  --gen_user_files              Generates user traversal files.\n");
     printf("  --backend <backend name>      Selects generation backend, either "
-           "typed or dynamic(default=dynamic).\n");
+           "static or dynamic(default=dynamic).\n");
     printf("  --show-ast                    Pretty print the ast at end of compilation\n");
     printf("  --show-structure              Pretty print the structure of the compiler.\n");
     printf("  --ag-scheduler-max-iter <int> Maximum iterations to be used by the ag "
@@ -128,6 +129,10 @@ void CLprocessArgs(int argc, char *argv[]) {
             break;
         case 30:
             global_command_line.backend = optarg;
+            if (!STReqci(optarg, "dynamic") && !STReq(optarg, "static")) {
+                printf("CLI: There is no backend '%s'. Exiting.\n", optarg);
+                exit(EXIT_FAILURE);
+            }
             break;
         case 31:
             global_command_line.gen_dir = optarg;
-- 
2.43.0


From 7aeab9e38e3edfbfa97bc9dbdbd6e89bb4eb857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:55 +0000
Subject: [PATCH 52/58] fix: end with the out of memory message when a hash
 table can not be allocated, it was used all the same

---
 palm/src/hash_table.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 6a67f99..0242557 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -43,7 +43,10 @@ struct htable *HTnew(size_t size, hash_key_ft hash_func, is_equal_ft is_equal_fu
     struct htable *table = MEMmalloc(sizeof(struct htable));
     table->size = size;
     table->elements = 0;
-    table->entries = calloc(sizeof(struct htable_entry *), size);
+    table->entries = MEMmalloc(sizeof(struct htable_entry *) * size);
+    for (size_t i = 0; i < size; i++) {
+        table->entries[i] = NULL;
+    }
     table->hash_f = hash_func;
     table->is_equal_f = is_equal_func;
 
-- 
2.43.0


From 7de8cfd332be4510b0e8930cc74fae812f2fc049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:55 +0000
Subject: [PATCH 53/58] fix: end with the out of memory message when the parser
 can not allocate, it crashed

---
 cocogen/frontend/scanAndParse/dsl-lexer.l  |  2 +-
 cocogen/frontend/scanAndParse/dsl-parser.y | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index 587c13d..5ddbf90 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -16,7 +16,7 @@
 #define LEX_KEYWORD(k) if (yy_lex_keywords) \
                                 return k;   \
                             else {          \
-                                yylval.string = strdup(yytext); \
+                                yylval.string = STRcpy(yytext); \
                                 return T_ID; \
                             } \
 
diff --git a/cocogen/frontend/scanAndParse/dsl-parser.y b/cocogen/frontend/scanAndParse/dsl-parser.y
index 756e569..8c3c70b 100644
--- a/cocogen/frontend/scanAndParse/dsl-parser.y
+++ b/cocogen/frontend/scanAndParse/dsl-parser.y
@@ -47,7 +47,7 @@ struct bison_attribute_options {
 
 struct bison_attribute_options *parse_attribute_options(struct bison_attribute_options_temp *start) {
     struct bison_attribute_options_temp *cur, *prev;
-    struct bison_attribute_options *data = malloc(sizeof(struct bison_attribute_options));
+    struct bison_attribute_options *data = MEMmalloc(sizeof(struct bison_attribute_options));
     data->lifetime = NULL;
     data->constructor = false;
     data->inherited = false;
@@ -743,22 +743,22 @@ attribute_optional_keywords:
 
 attribute_optional_keyword: T_CONSTRUCTOR
     {
-        $$ = malloc(sizeof(struct bison_attribute_options_temp));
+        $$ = MEMmalloc(sizeof(struct bison_attribute_options_temp));
         $$->value = BISON_BAO_constructor;
     }
     | T_INHERITED
     {
-        $$ = malloc(sizeof(struct bison_attribute_options_temp));
+        $$ = MEMmalloc(sizeof(struct bison_attribute_options_temp));
         $$->value = BISON_BAO_inherited;
     }
     | T_SYNTHESIZED
     {
-        $$ = malloc(sizeof(struct bison_attribute_options_temp));
+        $$ = MEMmalloc(sizeof(struct bison_attribute_options_temp));
         $$->value = BISON_BAO_synthesized;
     }
     | lifetime
     {
-        $$ = malloc(sizeof(struct bison_attribute_options_temp));
+        $$ = MEMmalloc(sizeof(struct bison_attribute_options_temp));
         $$->value = BISON_BAO_lifetime;
         $$->lifetime = $1;
         ILIFETIME_NEXT($$->lifetime) = NULL;
-- 
2.43.0


From 10613f409647280a938ab4c0412ebcb9f50b668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:55 +0000
Subject: [PATCH 54/58] fix: do not take a name for no C keyword when memory
 ran out while looking

---
 cocogen/frontend/scanAndParse/dsl-lexer.l | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index 5ddbf90..4cd42bd 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -219,6 +219,10 @@ static inline void check_c_keyword(const char *str) {
     }
     // Match for C-keywords.
     int reti = regexec(&regex, str, 0, NULL, 0);
+    if (reti && reti != REG_NOMATCH) {
+        CTI(CTI_ERROR, true, "Could not match C keyword regex.");
+        CTIabortOnError();
+    }
     if (!reti) {
         struct ctinfo info = {yylineno, yycolumn - strlen(str), 0, yycolumn - 1, globals.filename, HTlookup(globals.line_map, &yylineno)};
         CTIobj(CTI_ERROR, true, info, "Found C-keyword as identifier, "
-- 
2.43.0


From 5180d46218265b2223a9430746e1f1fdb9063c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:01 +0000
Subject: [PATCH 55/58] fix: do not take "->" for a name of an enum value, the
 generated code did not compile

---
 cocogen/frontend/scanAndParse/dsl-lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index 4cd42bd..c1cbc80 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -154,7 +154,7 @@ static inline void check_c_keyword(const char *);
 "disallowed"    { LEX_KEYWORD(T_DISALLOWED);}
 "optional"      { LEX_KEYWORD(T_OPTIONAL);}
 "allowed"       { LEX_KEYWORD(T_ALLOWED);}
-"->"            { LEX_KEYWORD(T_ARROW);}
+"->"            { return T_ARROW; }
 "false"         { LEX_KEYWORD(T_FALSE);}
 "true"          { LEX_KEYWORD(T_TRUE);}
 "gate"          { LEX_KEYWORD(T_GATE);}
-- 
2.43.0


From d1002072d7197ca0576fa14e6a90dcaa8fa2f327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:01 +0000
Subject: [PATCH 56/58] fix: enum values named enum and values no longer change
 how the rest of the specification is read

---
 cocogen/frontend/scanAndParse/dsl-lexer.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index c1cbc80..1600bc0 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -112,7 +112,7 @@ static inline void check_c_keyword(const char *);
 "children"      { LEX_KEYWORD(T_CHILDREN);}
 "constructor"   { LEX_KEYWORD(T_CONSTRUCTOR);}
 "cycle"         { LEX_KEYWORD(T_CYCLE);}
-"enum"          { in_enum = true; LEX_KEYWORD(T_ENUM);}
+"enum"          { in_enum |= yy_lex_keywords; LEX_KEYWORD(T_ENUM);}
 "equations"     { LEX_KEYWORD(T_EQUATIONS);}
 "inherited"     { LEX_KEYWORD(T_INHERITED);}
 "mandatory"     { LEX_KEYWORD(T_MANDATORY);}
@@ -131,7 +131,7 @@ static inline void check_c_keyword(const char *);
 "to"            { LEX_KEYWORD(T_TO);}
 "traversal"     { LEX_KEYWORD(T_TRAVERSAL);}
 "travdata"      { LEX_KEYWORD(T_TRAVDATA);}
-"values"        { if (in_enum) {in_enum_values = true;}LEX_KEYWORD(T_VALUES);}
+"values"        { if (in_enum && yy_lex_keywords) {in_enum_values = true;}LEX_KEYWORD(T_VALUES);}
 "info"          { LEX_KEYWORD(T_INFO);}
 "func"          { LEX_KEYWORD(T_FUNC);}
 "root"          { LEX_KEYWORD(T_ROOT);}
-- 
2.43.0


From 337afad2780b45683db94cf2dfa23a77733e3bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:00 +0000
Subject: [PATCH 57/58] fix: refuse an unterminated comment, the rest of the
 specification was ignored

---
 cocogen/frontend/scanAndParse/dsl-lexer.l | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index 1600bc0..3a0500b 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -20,6 +20,8 @@
                                 return T_ID; \
                             } \
 
+void yyerror(const char *s);
+
 bool yy_lex_keywords = true;
 bool in_enum = false;
 bool in_enum_values = false;
@@ -84,6 +86,7 @@ static inline void check_c_keyword(const char *);
     "*/"        { yy_push_state(INITIAL); }
     \n          { yy_push_state(SAVELINE); }
     .           {  }
+    <<EOF>>     { yyerror("unterminated comment"); }
 }
 "(" {return '(';}
 ")" {return ')';}
-- 
2.43.0


From 1f409345caca971c752cb3d5925852ac24c5759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:23 +0000
Subject: [PATCH 58/58] fix: an info text with the end of a comment in it made
 the skeleton of a traversal unusable

---
 cocogen/dynamic_backend/gen_user_traversals.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_user_traversals.c b/cocogen/dynamic_backend/gen_user_traversals.c
index 1df9fb6..33e453c 100644
--- a/cocogen/dynamic_backend/gen_user_traversals.c
+++ b/cocogen/dynamic_backend/gen_user_traversals.c
@@ -34,7 +34,10 @@ node_st *DUGTitraversal(node_st *node)
     OUT(" *\n");
     OUT(" *\n");
     if (ITRAVERSAL_IINFO(node)) {
-        OUT(" * @brief %s\n", ITRAVERSAL_IINFO(node));
+        // The text may not end the comment it is put in.
+        char *info = STRsubstToken(ITRAVERSAL_IINFO(node), "*/", "* /");
+        OUT(" * @brief %s\n", info);
+        MEMfree(info);
     }
     OUT(" */\n\n");
     OUT("#include \"ccn/ccn.h\"\n");
-- 
2.43.0

