From 067ef5486a3172eaae7789921912c8b98e9d0923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 01/35] fix: HTremove of an absent key whose bucket is empty
 returns NULL instead of dereferencing NULL

---
 palm/src/hash_table.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 713d5f4..7f6033d 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -145,7 +145,11 @@ void *HTremove(htable_st *table, void *key)
     struct htable_entry *previous = NULL;
     struct htable_entry *entry = table->entries[index];
 
-    if (entry && table->is_equal_f(entry->key, key)) {
+    if (entry == NULL) {
+        return NULL;
+    }
+
+    if (table->is_equal_f(entry->key, key)) {
         value = entry->value;
         table->entries[index] = entry->next;
         DeleteEntry(table, entry);
-- 
2.43.0


From 1bf181ac2aecbb4446f5734c86751f72d3adf79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 02/35] fix: HTclear resets the element count, so a cleared
 table can be counted and iterated

---
 palm/src/hash_table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 7f6033d..48faf21 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -210,6 +210,7 @@ void HTclear(struct htable *table)
         }
         table->entries[i] = NULL;
     }
+    table->elements = 0;
 }
 
 /**
-- 
2.43.0


From 03206bc68d66c51a5b05bcd64e73887e8370d87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:29 +0000
Subject: [PATCH 03/35] fix: STRsubStr clips lengths beyond either end of the
 string instead of copying a negative or wrapped size

---
 palm/src/str.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/palm/src/str.c b/palm/src/str.c
index 2dc5cc3..33e8aef 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -85,9 +85,12 @@ char *STRsubStr(const char *string, int start, int len)
 
     if (len < 0) {
         len = strlen + len; /* + - => - */
+        if (len < 0) { /* more than the whole string is left out */
+            len = 0;
+        }
     }
 
-    if ((start + len) > strlen) { /* to long take what we can */
+    if (len > strlen - start) { /* to long take what we can */
         len = strlen - start;
     }
 
-- 
2.43.0


From f86023f55c48c1c92f8821e3ffda3a658175d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:29 +0000
Subject: [PATCH 04/35] fix: STRsubstToken returns NULL for a NULL string, as
 documented

---
 palm/src/str.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/palm/src/str.c b/palm/src/str.c
index 33e8aef..2f7aa90 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -565,6 +565,10 @@ char *STRsubstToken(const char *str, const char *token, const char *subst)
     char *pos;
     char *result;
 
+    if (str == NULL) {
+        return NULL;
+    }
+
     /* Find number of occurrences of token in str */
     occurrences = 0;
     tlen = STRlen(token);
-- 
2.43.0


From 9b7711dfcb1f64f4b9b40ff7784428888f5098d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:58 +0000
Subject: [PATCH 05/35] fix: cycles and phases nested in a cycle no longer
 reset its iteration count or hide reported changes

---
 copra/src/phase_driver.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/copra/src/phase_driver.c b/copra/src/phase_driver.c
index 656eb35..944cdf0 100644
--- a/copra/src/phase_driver.c
+++ b/copra/src/phase_driver.c
@@ -190,6 +190,12 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
     phase_driver.level++;
     bool cycle = phase->is_cycle;
     uint64_t curr_action_id = phase_driver.action_id;
+    // Iterations and changes are counted per phase: a nested phase may not
+    // disturb the count of the cycle it is in, nor hide a reported change.
+    size_t prev_cycle_iter = phase_driver.cycle_iter;
+    bool prev_fixed_point = phase_driver.fixed_point;
+    bool changed = false;
+    phase_driver.cycle_iter = 0;
 
     do {
         // If we cycle around, reset the action id.
@@ -204,6 +210,7 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
             action_id = phase->action_table[action_counter];
         }
         phase_driver.cycle_iter++;
+        changed = changed || !phase_driver.fixed_point;
     } while(cycle && phase_driver.cycle_iter < phase_driver.max_cycles && !(phase_driver.fixed_point));
 
     if (phase_driver.phase_error) {
@@ -213,7 +220,8 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
         CTIabortCompilation();
     }
 
-    phase_driver.cycle_iter = 0;
+    phase_driver.cycle_iter = prev_cycle_iter;
+    phase_driver.fixed_point = prev_fixed_point && !changed;
     phase_driver.level--;
 
     phase_driver.current_phase = prev;
-- 
2.43.0


From 6bbf34005b56fe4d79949619a63ae85f489d8023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:42 +0000
Subject: [PATCH 06/35] fix: declare a pass function given with func = ... in
 the generated action header

---
 cocogen/dynamic_backend/gen_action_header.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_action_header.c b/cocogen/dynamic_backend/gen_action_header.c
index 27a34f6..dd00dbb 100644
--- a/cocogen/dynamic_backend/gen_action_header.c
+++ b/cocogen/dynamic_backend/gen_action_header.c
@@ -2,6 +2,7 @@
 #include <stdio.h>
 
 #include "gen_helpers/out_macros.h"
+#include "palm/memory.h"
 #include "ccn/dynamic_core.h"
 #include "ccngen/trav.h"
 #include "globals.h"
@@ -37,11 +38,9 @@ node_st *DGAHitraversal(node_st *node)
 node_st *DGAHipass(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    char *prefix = "";
-    if (IPASS_IPREFIX(node)) {
-        prefix = DGH_PASS_PREFIX(node);
-    }
-    OUT_FIELD(DGH_PASS_FUNC_SIG(), prefix, DGH_PASS_NAME(node), "");
+    char *func = DGHpassFuncName(node);
+    OUT_FIELD(DGH_PASS_FUNC_SIG(), "", func, "");
+    MEMfree(func);
     TRAVnext(node);
     return node;
 }
-- 
2.43.0


From 9c7de8efe75c5e8aea615ace0402faa2b2bbbc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:25 +0000
Subject: [PATCH 07/35] fix: a user-typed constructor attribute with capitals
 in its name compiles

---
 cocogen/dynamic_backend/gen_node_init_funcs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_node_init_funcs.c b/cocogen/dynamic_backend/gen_node_init_funcs.c
index 46ef2c2..5a6fb11 100644
--- a/cocogen/dynamic_backend/gen_node_init_funcs.c
+++ b/cocogen/dynamic_backend/gen_node_init_funcs.c
@@ -73,7 +73,7 @@ node_st *DGIFattribute(node_st *node)
         } else if (ATTRIBUTE_TYPE(node) == AT_link_or_enum) {
             OUT("enum %s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_user) {
-            OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), ID_LWR(ATTRIBUTE_NAME(node)));
+            OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else {
             OUT("%s %s", FMTattributeTypeToString(ATTRIBUTE_TYPE(node)), DGHattributeField(node));
         }
-- 
2.43.0


From f71cedf3402f6fcd45a83c0c9eed9268f199f039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:39 +0000
Subject: [PATCH 08/35] fix: an enum constructor attribute may name its enum in
 any letter case

---
 cocogen/dynamic_backend/gen_node_init_funcs.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_node_init_funcs.c b/cocogen/dynamic_backend/gen_node_init_funcs.c
index 5a6fb11..0cbc21f 100644
--- a/cocogen/dynamic_backend/gen_node_init_funcs.c
+++ b/cocogen/dynamic_backend/gen_node_init_funcs.c
@@ -8,6 +8,7 @@
 #include "palm/str.h"
 #include "ccn/dynamic_core.h"
 #include "ccngen/trav.h"
+#include "frontend/symboltable.h"
 #include "dynamic_backend/gen_helpers.h"
 
 bool dgif_print_semicolon = false;
@@ -15,9 +16,11 @@ static char *basic_node_type = "node_st";
 static char *curr_node_name = NULL;
 static char *curr_node_name_upr = NULL;
 static int arg_num = 0;
+static node_st *ste = NULL;
 
 node_st *DGIFast(node_st *node)
 {
+    ste = AST_STABLE(node);
     dgif_print_semicolon = true;
     TRAVinodes(node);
     return node;
@@ -71,7 +74,11 @@ node_st *DGIFattribute(node_st *node)
         if (ATTRIBUTE_TYPE(node) == AT_link) {
             OUT("%s *%s", basic_node_type, DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_link_or_enum) {
-            OUT("enum %s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
+            node_st *ref = STlookup(ste, ATTRIBUTE_TYPE_REFERENCE(node));
+            // Should be handled by check_existence.
+            assert(ref);
+            assert(NODE_TYPE(ref) == NT_IENUM);
+            OUT("enum %s %s", ID_ORIG(IENUM_NAME(ref)), DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_user) {
             OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else {
-- 
2.43.0


From 6295175e5e963cbb52f17e15dfb6e50a33307e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:39 +0000
Subject: [PATCH 09/35] fix: freeing a node with a string attribute computed by
 an equation compiles

---
 cocogen/dynamic_backend/gen_free_traversal.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cocogen/dynamic_backend/gen_free_traversal.c b/cocogen/dynamic_backend/gen_free_traversal.c
index ae3b5d8..f0bd376 100644
--- a/cocogen/dynamic_backend/gen_free_traversal.c
+++ b/cocogen/dynamic_backend/gen_free_traversal.c
@@ -90,6 +90,13 @@ node_st *DGFTchild(node_st *node)
 node_st *DGFTattribute(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
+
+    // The values of inherited and synthesized attributes belong to the equations.
+    if (ATTRIBUTE_IS_INHERITED(node) || ATTRIBUTE_IS_SYNTHESIZED(node)) {
+        TRAVnext(node);
+        return node;
+    }
+
     if (ATTRIBUTE_TYPE(node) == AT_string) {
         OUT_FIELD("MEMfree(arg_node->data.N_%s->%s)", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)));
     }
-- 
2.43.0


From a24de658db007c9e7e60c309398b80e97e71b32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:54 +0000
Subject: [PATCH 10/35] fix: the equation skeletons written for the user
 include stddef.h for NULL

---
 cocogen/dynamic_backend/gen_user_equations.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/dynamic_backend/gen_user_equations.c b/cocogen/dynamic_backend/gen_user_equations.c
index dcd5a95..c47f0c5 100644
--- a/cocogen/dynamic_backend/gen_user_equations.c
+++ b/cocogen/dynamic_backend/gen_user_equations.c
@@ -73,6 +73,7 @@ static void generate_user_file(node_st *node) {
     OUT(" *\n");
     OUT(" *\n");
     OUT(" */\n\n");
+    OUT("#include <stddef.h>\n\n");
     OUT("#include \"ccngen/equations/%s.h\"\n", ID_LWR(INODE_NAME(node)));
     OUT("\n");
 }
-- 
2.43.0


From 6525dc728f5411e11a529223021b540166b1108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:01 +0000
Subject: [PATCH 11/35] fix: generate the checks of every lifetime in a list,
 not only of the first

---
 cocogen/dynamic_backend/gen_check_traversal.c    | 1 +
 cocogen/frontend/lifetimes/map_id_to_lifetimes.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocogen/dynamic_backend/gen_check_traversal.c b/cocogen/dynamic_backend/gen_check_traversal.c
index 883b5f8..1b865a5 100644
--- a/cocogen/dynamic_backend/gen_check_traversal.c
+++ b/cocogen/dynamic_backend/gen_check_traversal.c
@@ -687,6 +687,7 @@ node_st *DGCHTilifetime(node_st *node)
         LifetimeAttributeGen(node);
     }
 
+    TRAVnext(node);
     return node;
 }
 
diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index ed733b0..285a1e6 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -99,6 +99,7 @@ node_st *MITLilifetime(node_st *node)
     TRAVbegin(node);
     last_action = NULL;
     TRAVend(node);
+    TRAVnext(node);
     return node;
 }
 
-- 
2.43.0


From 89f93a2df8d46bcf9d5ae5719dc18b2d6b36f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:01 +0000
Subject: [PATCH 12/35] fix: checks of children and attributes with an allowed
 range call CTI, as CTIerror does not take a text

---
 cocogen/dynamic_backend/gen_check_traversal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_check_traversal.c b/cocogen/dynamic_backend/gen_check_traversal.c
index 1b865a5..6578ca4 100644
--- a/cocogen/dynamic_backend/gen_check_traversal.c
+++ b/cocogen/dynamic_backend/gen_check_traversal.c
@@ -394,7 +394,7 @@ static void LifetimeChildAllowed(node_st *lifetime_begin, node_st *lifetime_end)
                  ID_UPR(INODE_NAME(curr_node)),
                  ID_UPR(CHILD_NAME(curr_child)));
     OUT_FIELD(
-        "CTIerror(\"Found disallowed child(%s) in node(%s).\\n\");",
+        "CTI(CTI_ERROR, true, \"Found disallowed child(%s) in node(%s).\\n\");",
         ID_ORIG(CHILD_NAME(curr_child)),
         ID_ORIG(INODE_NAME(curr_node)));
     OUT_END_IF();
@@ -567,7 +567,7 @@ static void LifetimeAttributeAllowed(node_st *lifetime_begin, node_st *lifetime_
 
     OUT_BEGIN_IF("%s != NULL", access);
     OUT_FIELD(
-        "CTIerror(\"Found disallowed attribute(%s) in node(%s).\\n\");",
+        "CTI(CTI_ERROR, true, \"Found disallowed attribute(%s) in node(%s).\\n\");",
         ID_ORIG(ATTRIBUTE_NAME(curr_attribute)),
         ID_ORIG(INODE_NAME(curr_node)));
     OUT_END_IF();
-- 
2.43.0


From f9ae1ae97de47b8734cc8c78ec14d568b873e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:01 +0000
Subject: [PATCH 13/35] fix: lifetime ranges end after everything nested in a
 phase and use the position of the named occurrence

---
 .../frontend/lifetimes/map_id_to_lifetimes.c  | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index 285a1e6..ada7d51 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -14,6 +14,8 @@
 #include "frontend/ctihelp.h"
 
 static node_st *last_action = NULL;
+static int last_action_id = 0;
+static int curr_action_id = 0;
 static node_st *last_node = NULL;
 static node_st *curr_target = NULL;
 static node_st *ast = NULL;
@@ -36,6 +38,23 @@ static bool CompareID(node_st *id, node_st *other_id)
 }
 
 
+/**
+ * The number of actions in a list of actions, including everything nested in them.
+ */
+static int CountActions(node_st *actions)
+{
+    int count = 0;
+    for (; actions != NULL; actions = IACTIONS_NEXT(actions)) {
+        node_st *action = STlookup(ste, IACTIONS_REFERENCE(actions));
+        count++;
+        if (action != NULL && NODE_TYPE(action) == NT_IPHASE) {
+            count += CountActions(IPHASE_IACTIONS(action));
+        }
+    }
+    return count;
+}
+
+
 node_st *MITLast(node_st *node)
 {
     ast = node;
@@ -60,6 +79,8 @@ node_st *MITLinode(node_st *node)
 
 node_st *MITLiactions(node_st *node)
 {
+    // A phase can occur more than once, so the id is the position of this occurrence.
+    const int action_id = curr_action_id++;
     node_st *action_lookup = STlookup(ste, IACTIONS_REFERENCE(node));
     if (action_lookup == NULL) {
         CTI(CTI_ERROR, true, "Lifetime target(%s) does not reference a valid action.", ID_ORIG(IACTIONS_REFERENCE(node)));
@@ -67,6 +88,7 @@ node_st *MITLiactions(node_st *node)
     if (NODE_TYPE(action_lookup) == NT_IPHASE) {
         if (CompareID(IPHASE_NAME(action_lookup), curr_target) || CompareID(IPHASE_IPREFIX(action_lookup), curr_target)) {
             last_action = node;
+            last_action_id = action_id;
             last_node = action_lookup;
             return node;
         }
@@ -74,6 +96,7 @@ node_st *MITLiactions(node_st *node)
     } else if (NODE_TYPE(action_lookup) == NT_IPASS) {
         if (CompareID(IPASS_NAME(action_lookup), curr_target) || CompareID(IPASS_IPREFIX(action_lookup), curr_target)) {
             last_action = node;
+            last_action_id = action_id;
             last_node = action_lookup;
             return node;
         }
@@ -81,6 +104,7 @@ node_st *MITLiactions(node_st *node)
         if (CompareID(ITRAVERSAL_NAME(action_lookup), curr_target) || CompareID(ITRAVERSAL_IPREFIX(action_lookup), curr_target)) {
             last_node = action_lookup;
             last_action = node;
+            last_action_id = action_id;
             return node;
         }
     }
@@ -115,17 +139,10 @@ node_st *MITLlifetime_range(node_st *node)
         info.last_column = 0;
         CTIobj(CTI_ERROR, true, info, "Lifetime does not target a valid action.");
     } else {
-        LIFETIME_RANGE_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action);
+        LIFETIME_RANGE_ACTION_ID(node) = last_action_id;
+        LIFETIME_RANGE_NEXT_ACTION_ID(node) = last_action_id + 1;
         if (NODE_TYPE(last_node) == NT_IPHASE) {
-            node_st *phase_actions = IPHASE_IACTIONS(last_node);
-            node_st *next = IACTIONS_NEXT(phase_actions);
-            while (next) {
-                phase_actions = next;
-                next = IACTIONS_NEXT(phase_actions);
-            }
-            LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(phase_actions) + 1;
-        } else {
-            LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action) + 1;
+            LIFETIME_RANGE_NEXT_ACTION_ID(node) += CountActions(IPHASE_IACTIONS(last_node));
         }
     }
     in_lifetime = false;
@@ -140,6 +157,8 @@ node_st *MITLid(node_st *node)
     }
     curr_target = node;
     if (last_action == NULL) {
+        // The start phase itself is 1.
+        curr_action_id = 2;
         TRAViactions(AST_START_PHASE(ast));
     } else {
         node_st *action = STlookup(ste, IACTIONS_REFERENCE(last_action));
@@ -156,6 +175,7 @@ node_st *MITLid(node_st *node)
         } else {
             last_action = NULL;
             last_node = NULL;
+            curr_action_id = last_action_id + 1;
             TRAViactions(action);
         }
     }
-- 
2.43.0


From 1f61f31a5f44e7cf0e52ccbb883e6f43a7b9dcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:02 +0000
Subject: [PATCH 14/35] fix: action array has an entry for every action id,
 including the check action

---
 cocogen/phase_driver/gen_action_array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cocogen/phase_driver/gen_action_array.c b/cocogen/phase_driver/gen_action_array.c
index 08cefe2..b208b51 100644
--- a/cocogen/phase_driver/gen_action_array.c
+++ b/cocogen/phase_driver/gen_action_array.c
@@ -25,6 +25,10 @@ node_st *GAAast(node_st *node)
 
     TRAVchildren(node);
 
+    // Order is important and should match the one in the action id enum.
+    OUT("{CCN_ACTION_TRAVERSAL, %s_check, \"Check\", .traversal = "
+        "{TRAV_check,},},\n", enum_action_pref);
+
     OUT("{CCN_ACTION_TRAVERSAL, %s_free, \"Free\", .traversal = "
         "{TRAV_free,},},\n", enum_action_pref);
 
-- 
2.43.0


From 1806d81c727a1a77d1129d33836bb67932682897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:02 +0000
Subject: [PATCH 15/35] fix: a phase named cleanup does not clash with the ids
 table of the system's cleanup phase

---
 cocogen/phase_driver/gen_action_array.c | 2 +-
 cocogen/phase_driver/gen_ids_table.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/phase_driver/gen_action_array.c b/cocogen/phase_driver/gen_action_array.c
index b208b51..22d82fc 100644
--- a/cocogen/phase_driver/gen_action_array.c
+++ b/cocogen/phase_driver/gen_action_array.c
@@ -33,7 +33,7 @@ node_st *GAAast(node_st *node)
         "{TRAV_free,},},\n", enum_action_pref);
 
     OUT("{CCN_ACTION_PHASE, %s_cleanup, \"Cleanup\", .phase = {NULL, NT_%s, "
-        "cleanup_ids_table, false, %s_cleanup,},},\n",
+        "ccn_cleanup_ids_table, false, %s_cleanup,},},\n",
         enum_action_pref, ID_UPR(INODE_NAME(AST_ROOT_NODE(ast))), enum_action_pref);
 
     OUT("};\n\n");
diff --git a/cocogen/phase_driver/gen_ids_table.c b/cocogen/phase_driver/gen_ids_table.c
index 0f1b20c..5a983de 100644
--- a/cocogen/phase_driver/gen_ids_table.c
+++ b/cocogen/phase_driver/gen_ids_table.c
@@ -24,7 +24,7 @@ node_st *GITast(node_st *node)
     OUT("#include \"ccn/phase_driver.h\"\n");
 
     ast = node;
-    OUT("enum %s cleanup_ids_table[2] = { %s_free, %s_NULL };\n", enum_action_name, enum_action_pref, enum_action_pref);
+    OUT("enum %s ccn_cleanup_ids_table[2] = { %s_free, %s_NULL };\n", enum_action_name, enum_action_pref, enum_action_pref);
     TRAVchildren(node);
     return node;
 }
-- 
2.43.0


From d6ed16f3dccf5599fd1f30db83a9597e748eca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:45 +0000
Subject: [PATCH 16/35] fix: generated equation headers declare the node type
 that link arguments need

---
 cocogen/dynamic_backend/gen_equation_functions.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/dynamic_backend/gen_equation_functions.c b/cocogen/dynamic_backend/gen_equation_functions.c
index 922b8fe..1eef61a 100644
--- a/cocogen/dynamic_backend/gen_equation_functions.c
+++ b/cocogen/dynamic_backend/gen_equation_functions.c
@@ -72,6 +72,7 @@ node_st *DGEFinode(node_st *node) {
         OUT("#include \"ccngen/ccn_defs.h\"\n");
         OUT("#include \"ccn/ccn_types.h\"\n");
         OUT("#include \"ccngen/enum.h\"\n");
+        OUT("#include \"ccngen/ast.h\"\n");
         OUT("#ifdef CCN_USES_UNSAFE\n");
         OUT("#include \"user_types.h\"\n");
         OUT("#endif\n");
-- 
2.43.0


From 8f35144199db1c981a08c39098dd4ff150b86e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:07 +0000
Subject: [PATCH 17/35] fix: diagnose inherited attributes of nodeset members
 which the nodeset does not have

---
 cocogen/frontend/check_product_rules.c | 55 ++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index cbd9a20..db3ae3e 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -220,11 +220,61 @@ static void check_product_rule(node_st *equations, node_st *node_name,
     }
 }
 
+static bool has_inherited_attribute(node_st *attributes) {
+    for (node_st *attribute = attributes; attribute != NULL;
+         attribute = ATTRIBUTE_NEXT(attribute)) {
+        if (ATTRIBUTE_IS_INHERITED(attribute)) {
+            return true;
+        }
+    }
+
+    return false;
+}
+
+/* The members of a nodeset cannot have inherited attributes which the nodeset
+   does not have, as there is no product rule that computes them. */
+static void check_member_attributes(node_st *nodeset, node_st *literal,
+                                    node_st *name) {
+    if (literal == NULL) {
+        return;
+    }
+    check_member_attributes(nodeset, SETLITERAL_LEFT(literal), name);
+
+    node_st *member =
+        STlookup(DATA_CPR_GET()->symboltable, SETLITERAL_REFERENCE(literal));
+    assert(member != NULL);
+    for (node_st *attribute = INODE_IATTRIBUTES(member); attribute != NULL;
+         attribute = ATTRIBUTE_NEXT(attribute)) {
+        if (ATTRIBUTE_IS_INHERITED(attribute) &&
+            find_attribute(nodeset, INODESET_IATTRIBUTES(nodeset),
+                           ATTRIBUTE_NAME(attribute)) == NULL) {
+            struct ctinfo info;
+            id_to_info(name, &info);
+            CTIobj(CTI_ERROR, true, info,
+                   "Node '%s' of nodeset '%s' has the inherited attribute "
+                   "'%s', which the nodeset does not have\n",
+                   ID_ORIG(INODE_NAME(member)),
+                   ID_ORIG(INODESET_NAME(nodeset)),
+                   ID_ORIG(ATTRIBUTE_NAME(attribute)));
+            CCNerrorAction();
+        }
+    }
+
+    check_member_attributes(nodeset, SETLITERAL_RIGHT(literal), name);
+}
+
 /**
  * @fn CPRast
  */
 node_st *CPRast(node_st *node) {
     DATA_CPR_GET()->symboltable = AST_STABLE(node);
+    for (node_st *nodeset = AST_INODESETS(node); nodeset != NULL;
+         nodeset = INODESET_NEXT(nodeset)) {
+        if (has_inherited_attribute(INODESET_IATTRIBUTES(nodeset))) {
+            check_member_attributes(nodeset, INODESET_EXPR(nodeset),
+                                    INODESET_NAME(nodeset));
+        }
+    }
     TRAVinodes(node);
     return node;
 }
@@ -286,6 +336,11 @@ node_st *CPRchild(node_st *node) {
     } else {
         assert(NODE_TYPE(ref_node) == NT_INODESET);
         attributes = INODESET_IATTRIBUTES(ref_node);
+        // Nodesets with inherited attributes are already checked.
+        if (!has_inherited_attribute(attributes)) {
+            check_member_attributes(ref_node, INODESET_EXPR(ref_node),
+                                    CHILD_NAME(node));
+        }
     }
 
     for (node_st *attribute = attributes; attribute != NULL;
-- 
2.43.0


From 81243477cc544d84b0994500702b79891e15a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:30 +0000
Subject: [PATCH 18/35] fix: nodeset visits without outputs do not crash the
 generation of visit functions

---
 cocogen/dynamic_backend/gen_visit_source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 6b1ef27..00400db 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -389,7 +389,7 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
 
 static inline bool is_desired(node_st *output, node_st *outputs) {
     assert(NODE_TYPE(output) == NT_VISIT_ARG_LIST);
-    assert(NODE_TYPE(outputs) == NT_VISIT_ARG_LIST);
+    assert(outputs == NULL || NODE_TYPE(outputs) == NT_VISIT_ARG_LIST);
     for (node_st *candidate = outputs; candidate;
          candidate = VISIT_ARG_LIST_NEXT(candidate)) {
         node_st *attr = VISIT_ARG_LIST_ATTRIBUTE(output);
-- 
2.43.0


From d2b285f35afa09a68bdba9e861bc9e2f3e790060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:33 +0000
Subject: [PATCH 19/35] fix: inherited attributes are stored in the child when
 evaluated, so that later evaluations and visits can use them

---
 cocogen/dynamic_backend/gen_visit_source.c | 62 ++++++++++++++++++++--
 1 file changed, 59 insertions(+), 3 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 00400db..6dbfc7c 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -259,6 +259,60 @@ static inline void print_equation_args(node_st *equation,
     }
 }
 
+static inline void print_set_child_node_value(node_st *child,
+                                              node_st *type_name,
+                                              node_st *attribute) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    node_st *name = ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute);
+    char *data = STRfmt("%s_%s(node)->data.N_%s->_%s",
+                        ID_UPR(INODE_NAME(curr_node)),
+                        ID_UPR(CHILD_NAME(child)), ID_LWR(type_name),
+                        ID_LWR(name));
+    OUT("%s.ccn_val_set = true;\n", data);
+    OUT("%s.%s = %s_%s;\n", data, ID_LWR(name),
+        get_node_name_this(attribute), ID_LWR(name));
+    MEMfree(data);
+}
+
+static void print_set_nodeset_value(node_st *child, node_st *literal,
+                                    node_st *attribute) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    if (!literal) {
+        return;
+    }
+
+    OUT_BEGIN_IF("NODE_TYPE(%s_%s(node)) == NT_%s",
+                 ID_UPR(INODE_NAME(curr_node)), ID_UPR(CHILD_NAME(child)),
+                 ID_UPR(SETLITERAL_REFERENCE(literal)));
+    print_set_child_node_value(child, SETLITERAL_REFERENCE(literal),
+                               attribute);
+    OUT_END_IF();
+    print_set_nodeset_value(child, SETLITERAL_LEFT(literal), attribute);
+    print_set_nodeset_value(child, SETLITERAL_RIGHT(literal), attribute);
+}
+
+/**
+ * Store the value of an inherited attribute in the child it belongs to, such
+ * that evaluations and visits which come later can use it.
+ */
+static void print_set_child_value(node_st *attribute) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    node_st *child = get_child(ATTRIBUTE_REFERENCE_INODE(attribute));
+    assert(child != NULL);
+    node_st *type = STlookup(ste, CHILD_TYPE_REFERENCE(child));
+    assert(type != NULL);
+
+    OUT_BEGIN_IF("%s_%s(node) != NULL", ID_UPR(INODE_NAME(curr_node)),
+                 ID_UPR(CHILD_NAME(child)));
+    if (NODE_TYPE(type) == NT_INODESET) {
+        print_set_nodeset_value(child, INODESET_EXPR(type), attribute);
+    } else {
+        print_set_child_node_value(child, CHILD_TYPE_REFERENCE(child),
+                                   attribute);
+    }
+    OUT_END_IF();
+}
+
 /**
  * @fn DGVSvisit_sequence_eval
  */
@@ -378,6 +432,8 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
 
         print_set_value(ATTRIBUTE_REFERENCE_REFERENCE(attribute), arg_str);
         MEMfree(arg_str);
+    } else {
+        print_set_child_value(attribute);
     }
 
     HTdelete(children_null);
@@ -457,9 +513,9 @@ static void print_visit_call(node_st *node, node_st *outputs,
     for (node_st *in_arg = VISIT_INPUTS(visit); in_arg;
          in_arg = VISIT_ARG_LIST_NEXT(in_arg)) {
         node_st *attribute = VISIT_ARG_LIST_ATTRIBUTE(in_arg);
-        OUT_NO_INDENT(", %s_%s",
-                      ID_LWR(CHILD_NAME(VISIT_SEQUENCE_VISIT_CHILD(node))),
-                      ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
+        OUT_NO_INDENT(", %s_%s(%s)", ID_UPR(INODE_NAME(VISIT_INODE(visit))),
+                      ID_UPR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)),
+                      child_access);
     }
 
     OUT_NO_INDENT(");\n");
-- 
2.43.0


From 6f617ec9ab3b19c5a8e91d31e2c07ef8c90ece0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:58 +0000
Subject: [PATCH 20/35] fix: every visit of a nodeset performs the visits its
 members need at that point, also if the first member needs none

---
 .../attribute_scheduler/generate_visits.c     | 150 ++++++++++++------
 .../attribute_scheduler/partition_nodes.c     | 101 ++++++++++++
 .../attribute_scheduler/partition_nodes.h     |   1 +
 .../schedule_attribute_visits.c               |  17 ++
 4 files changed, 223 insertions(+), 46 deletions(-)

diff --git a/cocogen/frontend/attribute_scheduler/generate_visits.c b/cocogen/frontend/attribute_scheduler/generate_visits.c
index b407020..eb24c92 100644
--- a/cocogen/frontend/attribute_scheduler/generate_visits.c
+++ b/cocogen/frontend/attribute_scheduler/generate_visits.c
@@ -316,64 +316,117 @@ static inline void set_alt(node_st *sequence, node_st *alt) {
     }
 }
 
-static node_st *add_visit_sequence_visit_nodeset_rec(
-    node_st **visit_tail, node_st *st, htable_st *visits_htable,
+// Find the visit of a nodeset which has to perform the given visit of one of
+// its members: the first visit in which all inputs up to then are available.
+static size_t find_nodeset_visit(struct visits *nodeset_visits,
+                                 struct visits *visits, size_t index) {
+    for (size_t i = nodeset_visits->length; i-- > 1;) {
+        struct visit *nodeset_visit = nodeset_visits->visits[i];
+        for (size_t j = 0; j < nodeset_visit->inputs_length; ++j) {
+            char *name =
+                ID_LWR(ATTRIBUTE_NAME(nodeset_visit->inputs[j]->attribute));
+            for (size_t k = 0; k <= index; ++k) {
+                struct visit *visit = visits->visits[k];
+                for (size_t l = 0; l < visit->inputs_length; ++l) {
+                    if (STReq(name, ID_LWR(ATTRIBUTE_NAME(
+                                        visit->inputs[l]->attribute)))) {
+                        return i;
+                    }
+                }
+            }
+        }
+    }
+
+    return 0;
+}
+
+// Find the visit number 'round' that a member has to perform in a visit of the
+// nodeset. Returns NULL if there is none.
+static struct visit *find_member_visit(struct visits *nodeset_visits,
+                                       struct visit *nodeset_visit,
+                                       struct visits *visits, size_t round) {
+    for (size_t i = 0; i < visits->length; ++i) {
+        if (find_nodeset_visit(nodeset_visits, visits, i) !=
+            nodeset_visit->index) {
+            continue;
+        }
+        if (round == 0) {
+            return visits->visits[i];
+        }
+        round -= 1;
+    }
+
+    return NULL;
+}
+
+// Add an alternative for every member which has a visit in this round
+// (required), or for every member that does not (!required).
+static void add_visit_sequence_visit_nodeset_alts(
+    node_st **head, node_st **tail, node_st *st, htable_st *visits_htable,
     htable_st *visit_stubs_htable, node_st *expr, node_st *child,
-    struct visit *original_visit) {
+    struct visit *nodeset_visit, size_t round, bool required) {
     if (expr == NULL) {
-        return NULL;
+        return;
     }
 
     assert(NODE_TYPE(expr) == NT_SETLITERAL);
 
     node_st *node = STlookup(st, SETLITERAL_REFERENCE(expr));
-    struct visits *visits = HTlookup(visits_htable, node);
-    node_st *sequence = NULL;
-    if (original_visit->index < visits->length) {
-        struct visit *visit = visits->visits[original_visit->index];
+    struct visits *nodeset_visits =
+        HTlookup(visits_htable, get_node_type(child, st));
+    struct visit *visit = find_member_visit(
+        nodeset_visits, nodeset_visit, HTlookup(visits_htable, node), round);
+    if ((visit != NULL) == required) {
+        node_st *sequence = NULL;
+        if (visit != NULL) {
+            sequence = ASTvisit_sequence_visit(child, NULL);
+            add_visit_stub(visit_stubs_htable, visit, sequence);
+        } else {
+            fprintf(log, "Do not add visit %s %lu for type %s\n",
+                    ID_LWR(get_node_name(child)), nodeset_visit->index,
+                    ID_LWR(get_node_name(node)));
+            sequence = ASTvisit_sequence_dummy(node);
+        }
 
-        sequence = ASTvisit_sequence_visit(child, NULL);
-        add_visit_stub(visit_stubs_htable, visit, sequence);
-    } else {
-        fprintf(log, "Do not add visit %s %lu for type %s\n", ID_LWR(get_node_name(child)), original_visit->index, ID_LWR(get_node_name(node)));
-        sequence = ASTvisit_sequence_dummy(node);
+        if (*head == NULL) {
+            *head = sequence;
+        } else {
+            set_alt(*tail, sequence);
+        }
+        *tail = sequence;
     }
 
-    node_st *left_tail = NULL;
-    node_st *sequence_left = add_visit_sequence_visit_nodeset_rec(
-        &left_tail, st, visits_htable, visit_stubs_htable,
-        SETLITERAL_LEFT(expr), child, original_visit);
-    set_alt(sequence, sequence_left);
-
-    node_st *right_tail = NULL;
-    node_st *sequence_right = add_visit_sequence_visit_nodeset_rec(
-        &right_tail, st, visits_htable, visit_stubs_htable,
-        SETLITERAL_RIGHT(expr), child, original_visit);
-    if (left_tail != NULL) {
-        set_alt(left_tail, sequence_right);
-    } else {
-        set_alt(sequence, sequence_right);
-    }
+    add_visit_sequence_visit_nodeset_alts(
+        head, tail, st, visits_htable, visit_stubs_htable,
+        SETLITERAL_LEFT(expr), child, nodeset_visit, round, required);
+    add_visit_sequence_visit_nodeset_alts(
+        head, tail, st, visits_htable, visit_stubs_htable,
+        SETLITERAL_RIGHT(expr), child, nodeset_visit, round, required);
+}
 
-    if (right_tail != NULL) {
-        *visit_tail = right_tail;
-    } else if (left_tail != NULL) {
-        *visit_tail = left_tail;
-    } else {
-        *visit_tail = sequence;
+// A single visit of a nodeset can consist of multiple visits of its members,
+// which are performed in rounds.
+static node_st *add_visit_sequence_visit_nodeset(node_st *st,
+                                                 htable_st *visits_htable,
+                                                 htable_st *visit_stubs_htable,
+                                                 node_st *expr, node_st *child,
+                                                 struct visit *nodeset_visit,
+                                                 size_t round) {
+    node_st *head = NULL;
+    node_st *tail = NULL;
+    add_visit_sequence_visit_nodeset_alts(&head, &tail, st, visits_htable,
+                                          visit_stubs_htable, expr, child,
+                                          nodeset_visit, round, true);
+    if (head != NULL) {
+        add_visit_sequence_visit_nodeset_alts(
+            &head, &tail, st, visits_htable, visit_stubs_htable, expr, child,
+            nodeset_visit, round, false);
+        VISIT_SEQUENCE_VISIT_NEXT(head) = add_visit_sequence_visit_nodeset(
+            st, visits_htable, visit_stubs_htable, expr, child, nodeset_visit,
+            round + 1);
     }
 
-    return sequence;
-}
-
-static inline node_st *
-add_visit_sequence_visit_nodeset(node_st *st, htable_st *visits_htable,
-                                 htable_st *visit_stubs_htable, node_st *expr,
-                                 node_st *child, struct visit *original_visit) {
-    node_st *visit_tail = NULL;
-    return add_visit_sequence_visit_nodeset_rec(&visit_tail, st, visits_htable,
-                                                visit_stubs_htable, expr, child,
-                                                original_visit);
+    return head;
 }
 
 static void add_visit_sequence(node_st **visit_head, node_st **visit_tail,
@@ -392,7 +445,7 @@ static void add_visit_sequence(node_st **visit_head, node_st **visit_tail,
             node_st *nodeset = get_node_type(child, st);
             sequence = add_visit_sequence_visit_nodeset(
                 st, visits_htable, visit_stubs_htable, INODESET_EXPR(nodeset),
-                child, item->visit->visit);
+                child, item->visit->visit, 0);
         } else {
             sequence = ASTvisit_sequence_visit(child, NULL);
             add_visit_stub(visit_stubs_htable, item->visit->visit, sequence);
@@ -439,6 +492,11 @@ static void add_visit_sequence(node_st **visit_head, node_st **visit_tail,
 
         *visit_tail = sequence;
     }
+
+    while (NODE_TYPE(*visit_tail) == NT_VISIT_SEQUENCE_VISIT &&
+           VISIT_SEQUENCE_VISIT_NEXT(*visit_tail) != NULL) {
+        *visit_tail = VISIT_SEQUENCE_VISIT_NEXT(*visit_tail);
+    }
 }
 
 static node_st *generate_visit(graph_st *graph, node_st *node, node_st *st,
diff --git a/cocogen/frontend/attribute_scheduler/partition_nodes.c b/cocogen/frontend/attribute_scheduler/partition_nodes.c
index cd27990..76c4907 100644
--- a/cocogen/frontend/attribute_scheduler/partition_nodes.c
+++ b/cocogen/frontend/attribute_scheduler/partition_nodes.c
@@ -169,3 +169,104 @@ bool repartition_nodes(graph_st *graph, node_st *tnode, node_st *st, htable_st *
 
     return changes;
 }
+
+static inline size_t lookup_attribute_partition(htable_st *table,
+                                                node_st *attribute) {
+    return (size_t)HTlookup(table, ID_LWR(ATTRIBUTE_NAME(attribute)));
+}
+
+// Find the lowest partition of a synthesized nodeset attribute in which all
+// members of the nodeset are able to provide it: a member evaluates it in the
+// visit of its own partition, after all inputs of this visit and of the visits
+// before it.
+static size_t min_member_partition(node_st *expr, node_st *nodeset, node_st *st,
+                                   node_st *attribute,
+                                   htable_st *partition_tables,
+                                   size_t partition) {
+    if (expr == NULL) {
+        return partition;
+    }
+
+    htable_st *table = HTlookup(partition_tables, nodeset);
+    htable_st *member_table =
+        HTlookup(partition_tables, STlookup(st, SETLITERAL_REFERENCE(expr)));
+    size_t member_partition =
+        lookup_attribute_partition(member_table, attribute);
+    for (node_st *input = INODESET_IATTRIBUTES(nodeset); input;
+         input = ATTRIBUTE_NEXT(input)) {
+        if (!ATTRIBUTE_IS_INHERITED(input) ||
+            lookup_attribute_partition(member_table, input) >
+                member_partition) {
+            continue;
+        }
+
+        size_t input_partition = lookup_attribute_partition(table, input);
+        if (input_partition + 1 > partition) {
+            partition = input_partition + 1;
+        }
+    }
+
+    partition = min_member_partition(SETLITERAL_LEFT(expr), nodeset, st,
+                                     attribute, partition_tables, partition);
+    return min_member_partition(SETLITERAL_RIGHT(expr), nodeset, st, attribute,
+                                partition_tables, partition);
+}
+
+/* Move attributes of a nodeset to later partitions, until the visits of all its
+   members fit in the visits of the nodeset.
+   Returns false if there is no such partition. */
+bool partition_nodeset_members(graph_st *graph, node_st *nodeset, node_st *st,
+                               htable_st *partition_tables) {
+    htable_st *table = HTlookup(partition_tables, nodeset);
+    size_t max_partition = 3;
+    for (node_st *attr = INODESET_IATTRIBUTES(nodeset); attr;
+         attr = ATTRIBUTE_NEXT(attr)) {
+        max_partition += 2;
+    }
+
+    bool changes;
+    do {
+        changes = false;
+        for (struct GRnode *node = graph->nodes; node; node = node->next) {
+            if (node->node != nodeset) {
+                continue;
+            }
+
+            bool synthesized = ATTRIBUTE_IS_SYNTHESIZED(node->attribute);
+            size_t partition =
+                lookup_attribute_partition(table, node->attribute);
+            size_t new_partition = partition;
+            struct GRnode_list *next;
+            for (struct GRnode_list *entry =
+                     GRget_inter_node_dependencies(graph, node);
+                 entry; entry = next) {
+                node_st *dep = entry->node->attribute;
+                size_t dep_partition = lookup_attribute_partition(table, dep);
+                next = entry->next;
+                MEMfree(entry);
+                if ((bool)ATTRIBUTE_IS_SYNTHESIZED(dep) != synthesized) {
+                    dep_partition += 1;
+                }
+                new_partition = MAX(new_partition, dep_partition);
+            }
+
+            if (synthesized) {
+                new_partition = min_member_partition(
+                    INODESET_EXPR(nodeset), nodeset, st, node->attribute,
+                    partition_tables, new_partition);
+            }
+
+            if (new_partition > max_partition) {
+                return false;
+            }
+
+            if (new_partition != partition) {
+                HTinsert(table, ID_LWR(ATTRIBUTE_NAME(node->attribute)),
+                         (void *)new_partition);
+                changes = true;
+            }
+        }
+    } while (changes);
+
+    return true;
+}
diff --git a/cocogen/frontend/attribute_scheduler/partition_nodes.h b/cocogen/frontend/attribute_scheduler/partition_nodes.h
index 600a15a..2cff249 100644
--- a/cocogen/frontend/attribute_scheduler/partition_nodes.h
+++ b/cocogen/frontend/attribute_scheduler/partition_nodes.h
@@ -5,3 +5,4 @@
 
 htable_st *partition_nodes(graph_st *graph, node_st *node);
 bool repartition_nodes(graph_st *graph, node_st *node, node_st *st, htable_st *partition_tables);
+bool partition_nodeset_members(graph_st *graph, node_st *nodeset, node_st *st, htable_st *partition_tables);
diff --git a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
index 46e859d..366926c 100644
--- a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
+++ b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
@@ -575,6 +575,23 @@ node_st *SAVast(node_st *node) {
         }
         htable_st *partition_table = partition_nodes(graph->graph, nodeset);
         HTinsert(partition_tables, nodeset, partition_table);
+        if (!partition_nodeset_members(graph->graph, nodeset, AST_STABLE(node),
+                                       partition_tables)) {
+            CTI(CTI_ERROR, true,
+                "The attributes of nodeset %s can not be scheduled in an order "
+                "which fits all its members.",
+                ID_ORIG(INODESET_NAME(nodeset)));
+            CCNerrorAction();
+            DATA_SAV_GET()->errors += 1;
+        }
+    }
+
+    if (DATA_SAV_GET()->errors > 0) {
+        HTmap(graphs_htable, delete_graphs);
+        HTdelete(graphs_htable);
+        HTmap(partition_tables, delete_tables);
+        HTdelete(partition_tables);
+        return node;
     }
 
     dump_dotfile(graphs_htable, "partitioned.dot", partition_tables);
-- 
2.43.0


From 32bb9d63bce2be25401fe187d0b8821841ca7d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:27 +0000
Subject: [PATCH 21/35] fix: children of the same type can be visited from the
 same visit function

---
 cocogen/dynamic_backend/gen_visit_source.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 6dbfc7c..8ab1712 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -568,6 +568,11 @@ node_st *DGVSvisit_sequence_visit(node_st *node) {
     node_st *child = VISIT_SEQUENCE_VISIT_CHILD(node);
     char *child_access = NULL;
 
+    // The results have a scope of their own, as other children of the same type
+    // use the same names.
+    OUT("{\n");
+    GNindentIncrease(ctx);
+
     if (VISIT_SEQUENCE_VISIT_ALT(node) || !CHILD_IS_MANDATORY(child)) {
         // Declare output arguments
         for (node_st *out_arg = VISIT_OUTPUTS(visit); out_arg;
@@ -634,6 +639,9 @@ node_st *DGVSvisit_sequence_visit(node_st *node) {
         OUT_END_IF();
     }
 
+    GNindentDecrease(ctx);
+    OUT("}\n\n");
+
     MEMfree(child_access);
 
     TRAVnext(node);
-- 
2.43.0


From f6490712f46d19319f3249c1f6a1848a0db7109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:13 +0000
Subject: [PATCH 22/35] fix: an attribute which depends on itself is reported
 as a loop

---
 cocogen/frontend/attribute_scheduler/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/attribute_scheduler/graph.c b/cocogen/frontend/attribute_scheduler/graph.c
index 9b79d81..7836a6b 100644
--- a/cocogen/frontend/attribute_scheduler/graph.c
+++ b/cocogen/frontend/attribute_scheduler/graph.c
@@ -222,7 +222,7 @@ static struct GRedge *add_edge_internal(struct GRgraph *graph,
 static inline bool check_cycle(struct GRgraph *graph, struct GRnode *n1,
                                struct GRnode *n2, struct GRerror *error,
                                enum GRedge_type type) {
-    if (HTlookup_edge(graph->internal->edge_map, n2, n1)) {
+    if (n1 == n2 || HTlookup_edge(graph->internal->edge_map, n2, n1)) {
         switch (type) {
         case GRnormal:
             error->type = GR_error_cycle;
-- 
2.43.0


From 5ab0eea079f4bba26642060b38e0f31f0ed3e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:48 +0000
Subject: [PATCH 23/35] fix: diagnose equations declared twice and arguments
 used twice, for which invalid code was generated

---
 cocogen/frontend/check_product_rules.c | 41 ++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index db3ae3e..8a58516 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -291,11 +291,52 @@ node_st *CPRinode(node_st *node) {
     return node;
 }
 
+static bool same_reference(node_st *ref1, node_st *ref2) {
+    node_st *node1 = ATTRIBUTE_REFERENCE_INODE(ref1);
+    node_st *node2 = ATTRIBUTE_REFERENCE_INODE(ref2);
+    return STReq(ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(ref1)),
+                 ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(ref2))) &&
+           ((node1 == NULL && node2 == NULL) ||
+            (node1 != NULL && node2 != NULL &&
+             STReq(ID_LWR(node1), ID_LWR(node2))));
+}
+
+static void report_duplicate(node_st *reference, char *message) {
+    struct ctinfo info;
+    id_to_info(ATTRIBUTE_REFERENCE_IATTRIBUTE(reference), &info);
+    node_st *node_name = ATTRIBUTE_REFERENCE_INODE(reference);
+    CTIobj(CTI_ERROR, true, info, message,
+           node_name == NULL ? "this" : ID_ORIG(node_name),
+           ID_ORIG(ATTRIBUTE_REFERENCE_IATTRIBUTE(reference)));
+    CCNerrorAction();
+}
+
 /**
  * @fn CPRequation
  */
 node_st *CPRequation(node_st *node) {
     check_attribute_reference(EQUATION_RULE(node), true);
+
+    for (node_st *other = EQUATION_NEXT(node); other != NULL;
+         other = EQUATION_NEXT(other)) {
+        if (same_reference(EQUATION_RULE(node), EQUATION_RULE(other))) {
+            report_duplicate(EQUATION_RULE(other),
+                             "Product rule of '%s.%s' is already declared\n");
+        }
+    }
+
+    for (node_st *arg = EQUATION_IARGS(node); arg != NULL;
+         arg = EQUATION_DEPENDENCY_NEXT(arg)) {
+        for (node_st *other = EQUATION_DEPENDENCY_NEXT(arg); other != NULL;
+             other = EQUATION_DEPENDENCY_NEXT(other)) {
+            if (same_reference(EQUATION_DEPENDENCY_IATTRIBUTE(arg),
+                               EQUATION_DEPENDENCY_IATTRIBUTE(other))) {
+                report_duplicate(EQUATION_DEPENDENCY_IATTRIBUTE(other),
+                                 "Argument '%s.%s' is already used\n");
+            }
+        }
+    }
+
     TRAViargs(node);
     TRAVnext(node);
     return node;
-- 
2.43.0


From e4aca0bb7b260a0a6f2dc9aef6d7fb3099f9b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:10 +0000
Subject: [PATCH 24/35] fix: report a specification without a root node or
 start phase

---
 cocogen/frontend/check_existance.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 8e53ed2..46341d8 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -50,6 +50,12 @@ node_st *CEXast(node_st *node)
     root = node;
     ste = AST_STABLE(node);
     TRAVchildren(node);
+    if (!seen_root_node) {
+        CTI(CTI_ERROR, true, "No root node is defined.");
+    }
+    if (!seen_start_phase) {
+        CTI(CTI_ERROR, true, "No starting phase is defined.");
+    }
     CTIabortOnError();
     CCNfree(trav_data_names);
     CCNfree(enum_prefix_ste);
-- 
2.43.0


From 1ad9764847e1d5756929616fc71bbd464e01abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:10 +0000
Subject: [PATCH 25/35] fix: report duplicate enum values

---
 cocogen/frontend/check_existance.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 46341d8..0d26811 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -322,6 +322,15 @@ node_st *CEXienum(node_st *node)
     } else {
         enum_prefix_ste = STadd(enum_prefix_ste, IENUM_IPREFIX(node), node);
     }
+    for (node_st *val = IENUM_VALS(node); val != NULL; val = ID_NEXT(val)) {
+        for (node_st *other = ID_NEXT(val); other != NULL; other = ID_NEXT(other)) {
+            if (STReq(ID_LWR(val), ID_LWR(other))) {
+                struct ctinfo info;
+                id_to_info(other, &info);
+                CTIobj(CTI_ERROR, true, info, "Duplicate enum value: %s\n", ID_ORIG(other));
+            }
+        }
+    }
     TRAVchildren(node);
     return node;
 }
-- 
2.43.0


From 2c49b954cdf805e67ad6279f2955fc9054d7e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:10 +0000
Subject: [PATCH 26/35] fix: report a reference in an actions block to
 something that is not the name of an action

---
 cocogen/frontend/check_existance.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 0d26811..7e00b0c 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -66,7 +66,16 @@ node_st *CEXiactions(node_st *node)
 {
     TRAVchildren(node);
     node_st *ref = STlookup(ste, IACTIONS_REFERENCE(node));
-    if (ref == NULL) {
+    node_st *name = NULL;
+    if (ref != NULL && NODE_TYPE(ref) == NT_IPHASE) {
+        name = IPHASE_NAME(ref);
+    } else if (ref != NULL && NODE_TYPE(ref) == NT_ITRAVERSAL) {
+        name = ITRAVERSAL_NAME(ref);
+    } else if (ref != NULL && NODE_TYPE(ref) == NT_IPASS) {
+        name = IPASS_NAME(ref);
+    }
+    // The symbol table also has nodes, nodesets, enums and the uids of actions.
+    if (name == NULL || !STReq(ID_LWR(name), ID_LWR(IACTIONS_REFERENCE(node)))) {
         CTI(CTI_ERROR, true, "Could not find action: %s\n", ID_ORIG(IACTIONS_REFERENCE(node)));
     }
     return node;
-- 
2.43.0


From 8de10c8f6f9305b62e44e41e597b7b4e521afeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:41 +0000
Subject: [PATCH 27/35] fix: report a phase or cycle that contains itself

---
 cocogen/frontend/check_existance.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 7e00b0c..17e1bcd 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -6,6 +6,7 @@
 #include <stddef.h>
 #include "globals.h"
 #include "palm/ctinfo.h"
+#include "palm/hash_table.h"
 #include "palm/str.h"
 #include "ccngen/ast.h"
 #include "ccngen/trav.h"
@@ -81,9 +82,36 @@ node_st *CEXiactions(node_st *node)
     return node;
 }
 
+static bool phaseContains(node_st *phase, node_st *target, htable_st *visited)
+{
+    for (node_st *act = IPHASE_IACTIONS(phase); act != NULL; act = IACTIONS_NEXT(act)) {
+        node_st *ref = STlookup(ste, IACTIONS_REFERENCE(act));
+        if (ref == NULL || NODE_TYPE(ref) != NT_IPHASE) {
+            continue;
+        }
+        if (ref == target) {
+            return true;
+        }
+        if (HTlookup(visited, ref) == NULL) {
+            HTinsert(visited, ref, ref);
+            if (phaseContains(ref, target, visited)) {
+                return true;
+            }
+        }
+    }
+    return false;
+}
+
 node_st *CEXiphase(node_st *node)
 {
     checkUID(IPHASE_IPREFIX(node));
+    htable_st *visited = HTnew_Ptr(100);
+    if (phaseContains(node, node, visited)) {
+        struct ctinfo info;
+        id_to_info(IPHASE_NAME(node), &info);
+        CTIobj(CTI_ERROR, true, info, "Phase contains itself: %s\n", ID_ORIG(IPHASE_NAME(node)));
+    }
+    HTdelete(visited);
     if (IPHASE_IS_START(node)) {
         if (seen_start_phase) {
             CTI(CTI_ERROR, true, "Double definition of a starting phase.");
-- 
2.43.0


From 518e986b063957dcf541ed51c4f5cc7b5525473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:41 +0000
Subject: [PATCH 28/35] fix: check all attributes of a node or nodeset, not
 only the first

---
 cocogen/frontend/check_attributes.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocogen/frontend/check_attributes.c b/cocogen/frontend/check_attributes.c
index 13c10aa..d53533c 100644
--- a/cocogen/frontend/check_attributes.c
+++ b/cocogen/frontend/check_attributes.c
@@ -68,6 +68,7 @@ node_st *CHAattribute(node_st *node) {
     // Don't check propagated attributes for the rest to prevent duplicate
     // errors
     if (ATTRIBUTE_IS_PROPAGATED(node)) {
+        TRAVnext(node);
         return node;
     }
 
@@ -94,5 +95,6 @@ node_st *CHAattribute(node_st *node) {
         }
     }
 
+    TRAVnext(node);
     return node;
 }
-- 
2.43.0


From 520cf0dd60e95f57bd0d8d92fb92799e2a2dc061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:41 +0000
Subject: [PATCH 29/35] fix: print the name of a duplicate pass function

---
 cocogen/frontend/buildsymboltable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/buildsymboltable.c b/cocogen/frontend/buildsymboltable.c
index 6ef2787..e123382 100644
--- a/cocogen/frontend/buildsymboltable.c
+++ b/cocogen/frontend/buildsymboltable.c
@@ -133,7 +133,7 @@ node_st *BSTipass(node_st *node)
         if (existing_func != NULL) {
             struct ctinfo info;
             id_to_info(IPASS_TARGET_FUNC(node), &info);
-            CTIobj(CTI_ERROR, false, info, "Duplicate pass function: %s\n", IPASS_TARGET_FUNC(node));
+            CTIobj(CTI_ERROR, false, info, "Duplicate pass function: %s\n", ID_ORIG(IPASS_TARGET_FUNC(node)));
             id_to_info(IPASS_TARGET_FUNC(existing_func), &info);
             CTIobj(CTI_NOTE, true, info, "Also defined here\n");
         } else {
-- 
2.43.0


From ac53ea2277b3bd197ca8a4d9e3c7e2bfdef03f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:10 +0000
Subject: [PATCH 30/35] fix: report the name and uid null, which clash with the
 generated enums

---
 cocogen/frontend/check_existance.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 17e1bcd..a6dbc59 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -32,8 +32,19 @@ static char *uid_reserved[] = {
     "CHK",
     "DEL",
     "EVAL",
+    "NULL",
 };
 
+// NULL is the name of the first value in the generated enums.
+static void checkName(node_st *id)
+{
+    if (STReq(ID_UPR(id), "NULL")) {
+        struct ctinfo info;
+        id_to_info(id, &info);
+        CTIobj(CTI_ERROR, true, info, "Name is reserved: %s\n", ID_ORIG(id));
+    }
+}
+
 void checkUID(node_st *id)
 {
     if (id == NULL) {
@@ -104,6 +115,7 @@ static bool phaseContains(node_st *phase, node_st *target, htable_st *visited)
 
 node_st *CEXiphase(node_st *node)
 {
+    checkName(IPHASE_NAME(node));
     checkUID(IPHASE_IPREFIX(node));
     htable_st *visited = HTnew_Ptr(100);
     if (phaseContains(node, node, visited)) {
@@ -127,6 +139,7 @@ node_st *CEXiphase(node_st *node)
 
 node_st *CEXitraversal(node_st *node)
 {
+    checkName(ITRAVERSAL_NAME(node));
     checkUID(ITRAVERSAL_IPREFIX(node));
     if (trav_data_names != NULL) {
         CCNfree(trav_data_names);
@@ -169,6 +182,7 @@ node_st  *CEXitravdata(node_st *node)
 
 node_st *CEXipass(node_st *node)
 {
+    checkName(IPASS_NAME(node));
     checkUID(IPASS_IPREFIX(node));
     TRAVchildren(node);
     return node;
@@ -176,6 +190,7 @@ node_st *CEXipass(node_st *node)
 
 node_st *CEXinode(node_st *node)
 {
+    checkName(INODE_NAME(node));
     if (STReq(ID_LWR(INODE_NAME(node)), "node")) {
         struct ctinfo info;
         id_to_info(INODE_NAME(node), &info);
@@ -201,6 +216,7 @@ node_st *CEXinode(node_st *node)
 
 node_st *CEXinodeset(node_st *node)
 {
+    checkName(INODESET_NAME(node));
     TRAViattributes(node);
     TRAVexpr(node);
     if (node_ste != NULL) {
-- 
2.43.0


From 218c8960231783aeb82d9fdef69d19ff31248073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:10 +0000
Subject: [PATCH 31/35] fix: report traversals and children whose set of nodes
 is empty

---
 cocogen/frontend/unwrap_setexpr.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/cocogen/frontend/unwrap_setexpr.c b/cocogen/frontend/unwrap_setexpr.c
index db11363..af48af2 100644
--- a/cocogen/frontend/unwrap_setexpr.c
+++ b/cocogen/frontend/unwrap_setexpr.c
@@ -7,10 +7,13 @@
 
 #include <stddef.h>
 #include "assert.h"
+#include "palm/ctinfo.h"
 #include "palm/str.h"
 #include "ccngen/ast.h"
+#include "ccngen/trav.h"
 #include "ccn/dynamic_core.h"
 #include "sets/set.h"
+#include "frontend/ctihelp.h"
 #include "frontend/symboltable.h"
 
 static node_st *ste;
@@ -18,7 +21,29 @@ static node_st *ste;
 node_st *USEast(node_st *node)
 {
     ste = AST_STABLE(node);
+    for (node_st *trav = AST_ITRAVERSALS(node); trav != NULL; trav = ITRAVERSAL_NEXT(trav)) {
+        if (ITRAVERSAL_INODES(trav) == NULL) {
+            continue; // Targets all nodes.
+        }
+        TRAVinodes(trav);
+        if (ITRAVERSAL_INODES(trav) == NULL) {
+            struct ctinfo info;
+            id_to_info(ITRAVERSAL_NAME(trav), &info);
+            CTIobj(CTI_ERROR, true, info, "Traversal does not target any node: %s\n", ID_ORIG(ITRAVERSAL_NAME(trav)));
+        }
+    }
     TRAVchildren(node);
+    for (node_st *inode = AST_INODES(node); inode != NULL; inode = INODE_NEXT(inode)) {
+        for (node_st *child = INODE_ICHILDREN(inode); child != NULL; child = CHILD_NEXT(child)) {
+            node_st *type = STlookup(ste, CHILD_TYPE_REFERENCE(child));
+            if (NODE_TYPE(type) == NT_INODESET && INODESET_EXPR(type) == NULL) {
+                struct ctinfo info;
+                id_to_info(CHILD_NAME(child), &info);
+                CTIobj(CTI_ERROR, true, info, "Nodeset of child does not contain any node: %s\n", ID_ORIG(CHILD_NAME(child)));
+            }
+        }
+    }
+    CTIabortOnError();
     return node;
 }
 
-- 
2.43.0


From 4ba72a44522587fbe12f9af7bda7a2854a63a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:38 +0000
Subject: [PATCH 32/35] fix: do not abort while reporting an illegal
 redeclaration of a nodeset attribute

---
 cocogen/frontend/nodesets/propagate_attributes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/nodesets/propagate_attributes.c b/cocogen/frontend/nodesets/propagate_attributes.c
index 959724c..eaee164 100644
--- a/cocogen/frontend/nodesets/propagate_attributes.c
+++ b/cocogen/frontend/nodesets/propagate_attributes.c
@@ -54,7 +54,7 @@ static bool check_classic_exception(node_st *node, node_st *parent_attr,
                "redeclared in node '%s' without the constructor keyword\n",
                ID_ORIG(ATTRIBUTE_NAME(parent_attr)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)),
-               ID_ORIG(INODESET_NAME(node)));
+               ID_ORIG(INODE_NAME(node)));
         CCNerrorAction();
     } else if (ATTRIBUTE_IS_INHERITED(child_attr) ||
                ATTRIBUTE_IS_SYNTHESIZED(child_attr) ||
@@ -63,7 +63,7 @@ static bool check_classic_exception(node_st *node, node_st *parent_attr,
                "Redeclaration of attribute '%s' in node '%s' has a different "
                "signature than the attribute in parent nodeset '%s'\n",
                ID_ORIG(ATTRIBUTE_NAME(parent_attr)),
-               ID_ORIG(INODESET_NAME(node)),
+               ID_ORIG(INODE_NAME(node)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)));
         CCNerrorAction();
     }
-- 
2.43.0


From c6d1bef61ed0a366e6302501c2e90e08ffbdd713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:38 +0000
Subject: [PATCH 33/35] fix: compare the types of redeclared attributes
 regardless of letter case

---
 cocogen/frontend/nodesets/propagate_attributes.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/nodesets/propagate_attributes.c b/cocogen/frontend/nodesets/propagate_attributes.c
index eaee164..bc70f7e 100644
--- a/cocogen/frontend/nodesets/propagate_attributes.c
+++ b/cocogen/frontend/nodesets/propagate_attributes.c
@@ -26,8 +26,10 @@ static inline bool compare_attribute_types(node_st *a, node_st *b) {
         return false;
     }
 
-    if (ATTRIBUTE_TYPE(a) == AT_link || ATTRIBUTE_TYPE(a) == AT_link_or_enum ||
-        ATTRIBUTE_TYPE(a) == AT_user) {
+    if (ATTRIBUTE_TYPE(a) == AT_link || ATTRIBUTE_TYPE(a) == AT_link_or_enum) {
+        return STReq(ID_LWR(ATTRIBUTE_TYPE_REFERENCE(a)),
+                     ID_LWR(ATTRIBUTE_TYPE_REFERENCE(b)));
+    } else if (ATTRIBUTE_TYPE(a) == AT_user) {
         return STReq(ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(a)),
                      ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(b)));
     }
-- 
2.43.0


From 29ddf13e586d7ad30e0d0598706aadc91a2c2b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:38 +0000
Subject: [PATCH 34/35] fix: report attributes that are both inherited and
 synthesized

---
 cocogen/frontend/check_attributes.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cocogen/frontend/check_attributes.c b/cocogen/frontend/check_attributes.c
index d53533c..3b27412 100644
--- a/cocogen/frontend/check_attributes.c
+++ b/cocogen/frontend/check_attributes.c
@@ -72,6 +72,12 @@ node_st *CHAattribute(node_st *node) {
         return node;
     }
 
+    if (ATTRIBUTE_IS_INHERITED(node) && ATTRIBUTE_IS_SYNTHESIZED(node)) {
+        CTIobj(CTI_ERROR, true, info,
+               "Attributes cannot be both inherited and synthesized\n");
+        CCNerrorAction();
+    }
+
     if (ATTRIBUTE_IN_CONSTRUCTOR(node)) {
         if (DATA_CHA_GET()->in_nodeset) {
             CTIobj(CTI_ERROR, true, info,
-- 
2.43.0


From 12b31c6aa6e3e913cbcfa6d6e96cf29549674d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:43 +0000
Subject: [PATCH 35/35] fix: evaluate a nodeset that is referred to before its
 turn without its successors, which freed expressions still in use

---
 cocogen/frontend/unwrap_setexpr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/unwrap_setexpr.c b/cocogen/frontend/unwrap_setexpr.c
index af48af2..50e4570 100644
--- a/cocogen/frontend/unwrap_setexpr.c
+++ b/cocogen/frontend/unwrap_setexpr.c
@@ -86,7 +86,7 @@ node_st *USEsetreference(node_st *node)
     node_st *nodeset = STlookup(ste, SETREFERENCE_REFERENCE(node));
     assert(nodeset && NODE_TYPE(nodeset) == NT_INODESET);
     if (INODESET_EXPR(nodeset) && NODE_TYPE(INODESET_EXPR(nodeset)) != NT_SETLITERAL) {
-        TRAVchildren(nodeset);
+        TRAVexpr(nodeset);
     }
     if (INODESET_EXPR(nodeset)) {
         assert(NODE_TYPE(INODESET_EXPR(nodeset)) == NT_SETLITERAL);
-- 
2.43.0

