From 601f821442bc0688962eea99a42900155b9d1827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:39 +0000
Subject: [PATCH 01/50] fix: keep policy graph links and actions for problems
 with a single observation

enum and incprune copied the projection set without its observation
sources, so relinkObsSources() dereferenced a NULL array.
---
 src/cross-sum.c   | 24 ++++++++++++++++++++++++
 src/cross-sum.h   |  5 +++++
 src/enumeration.c |  2 +-
 src/inc-prune.c   |  2 +-
 4 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/cross-sum.c b/src/cross-sum.c
index 6543176..05092e4 100644
--- a/src/cross-sum.c
+++ b/src/cross-sum.c
@@ -179,5 +179,29 @@ crossSum( AlphaList A, AlphaList B, int save_obs_sources )
   return ( V );
 }  /* crossSum */
 /**********************************************************************/
+AlphaList 
+singleProjectionSum( AlphaList A ) 
+{
+  /*
+    The degenerate cross-sum for problems with only a single observation:
+    each vector of the projection set is copied and has its obs_source
+    set to the projection vector it came from, just as crossSum() does.
+  */
+  AlphaList V, a, node;
+
+  Assert ( A != NULL, "NULL set specified." );
+
+  V = newAlphaList();
+  V->action = A->action;
+
+  for ( a = A->head; a != NULL; a = a->next ) {
+    node = newAlphaNodeObsSource( duplicateAlpha( a->alpha ), V->action );
+    node->obs_source[a->obs] = a;
+    appendNodeToAlphaList( V, node );
+  }  /* for a */
+
+  return ( V );
+}  /* singleProjectionSum */
+/**********************************************************************/
 
 
diff --git a/src/cross-sum.h b/src/cross-sum.h
index 87b6730..66b9bef 100644
--- a/src/cross-sum.h
+++ b/src/cross-sum.h
@@ -37,5 +37,10 @@
 extern AlphaList crossSum( AlphaList A, 
                            AlphaList B, 
                            int save_obs_sources );
+
+/* The degenerate cross-sum of a single projection set, for problems
+  with only one observation: copies the vectors and sets their
+  obs_source. */
+extern AlphaList singleProjectionSum( AlphaList A );
  
 #endif
diff --git a/src/enumeration.c b/src/enumeration.c
index 82d24f7..29c38a4 100644
--- a/src/enumeration.c
+++ b/src/enumeration.c
@@ -61,7 +61,7 @@ enumerationByQ( AlphaList *projection )
      we have no cross-sum to do. */
   if ( gNumObservations == 1 ) {
     gNumVectorsEnum += projection[0]->length;
-    return ( duplicateAlphaList( projection[0] ));
+    return ( singleProjectionSum( projection[0] ));
   }
 
    /* We do one less cross-sum than the number of observations. */
diff --git a/src/inc-prune.c b/src/inc-prune.c
index 5d61492..3ffb5a3 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -404,7 +404,7 @@ improveIncPrune( AlphaList *projection,
      corresponds to a completely unobservable problem, but for this
      we have no cross-sum to do. */
   if ( gNumObservations == 1 ) 
-    return ( duplicateAlphaList( projection[0] ));
+    return ( singleProjectionSum( projection[0] ));
 
     /* We do one less cross-sum than the number of observations. */
    for( z = 1; z < gNumObservations; z++) {
-- 
2.43.0


From dd9100552e210aff35fbda2f440546347e252df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 02/50] fix: restricted region and generalized incremental
 pruning lost vectors when a set held duplicates

Two equal vectors in a projection set (possible when -proj_purge is none or
domonly) were each compared with the other, so neither was ever strictly
better and both were dropped.
---
 src/inc-prune.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/inc-prune.c b/src/inc-prune.c
index 3ffb5a3..98fba47 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -88,15 +88,19 @@ void
 addSimpleSumIp( AlphaList new_list, 
 		AlphaList old_list, 
 		AlphaList add_node,
-		AlphaList skip_node ) 
+		AlphaList skip_node,
+		double epsilon ) 
 {
   /*
     For each vector in the 'old' list, it adds a vector to the 'new'
     list that had the vector in 'add_node' added to it.  It will ignore
-    the node that is equal to 'skip_node' when doing this.
+    the node that is equal to 'skip_node' when doing this.  Copies of
+    the 'skip_node' vector that come later in the list are ignored as
+    well: neither of two equal vectors can ever be strictly better than
+    the other, so comparing both with each other would lose both.
   */
   AlphaList new_node;
-  int i;
+  int i, past_skip_node = FALSE;
 
   Assert( new_list != NULL 
           && old_list != NULL 
@@ -106,7 +110,11 @@ addSimpleSumIp( AlphaList new_list,
   old_list = old_list->head;
   while( old_list != NULL ) {
     
-    if ( old_list != skip_node ) {
+    if ( old_list == skip_node )
+      past_skip_node = TRUE;
+
+    else if ( ! past_skip_node
+              || ! sameAlpha( old_list->alpha, skip_node->alpha, epsilon )) {
       new_node = appendAlphaList( new_list, 
                                   duplicateAlpha( old_list->alpha ),
                                   old_list->action );
@@ -157,7 +165,8 @@ AlphaList
 getGenIpCompareList( AlphaList node, 
 		     AlphaList A, AlphaList B,
 		     AlphaList cur_list,
-		     GeneralizedIpChoice ip_type ) 
+		     GeneralizedIpChoice ip_type,
+		     double epsilon ) 
 {
   /*
     Based on the parameters, returns a pointer to an AlphaList
@@ -188,9 +197,9 @@ getGenIpCompareList( AlphaList node,
     compare_list = newAlphaList();
     SHOULD_DESTROY(compare_list) = TRUE;
     addSimpleSumIp( compare_list, A, node->second_source,
-                    node->first_source );
+                    node->first_source, epsilon );
     addSimpleSumIp( compare_list, B, node->first_source,
-                    node->second_source );
+                    node->second_source, epsilon );
     break;
 
   case GeneralizedIp:
@@ -224,14 +233,14 @@ getGenIpCompareList( AlphaList node,
          < ( COUNT(node->second_source) + B->length)) {
       
       addSimpleSumIp( compare_list, A, node->second_source,
-                      node->first_source );
+                      node->first_source, epsilon );
       addExtractedNodesIp( compare_list, cur_list, 
                            node->first_source, NULL );
     }
 
     else {
       addSimpleSumIp( compare_list, B, node->first_source,
-                      node->second_source );
+                      node->second_source, epsilon );
       addExtractedNodesIp( compare_list, cur_list, 
                            NULL, node->second_source );
 
@@ -333,7 +342,8 @@ generalizedIpCrossSum( AlphaList A,
        do not want to destroy) and in other cases return a list that
        was temporarily constructed for comparison purpose. */
     compare_list = getGenIpCompareList( cur_node, A, B, 
-                                        new_list, param->ip_type );
+                                        new_list, param->ip_type,
+                                        param->alpha_epsilon );
 
     /* See if this node gives us a witness point that there must be a
        vector to be added to new list from original list. */
-- 
2.43.0


From 68d8c62e2a1743b6f28d78f5ebb71934fbfca2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 03/50] fix: Bellman stopping criterion stopped at once for
 cost models

The minimum immediate reward is computed before costs are negated, so a
model with non-negative costs was taken for one with non-negative rewards
and only one direction of the residual was computed.
---
 src/common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index c73f74d..f8d7d77 100644
--- a/src/common.c
+++ b/src/common.c
@@ -177,8 +177,10 @@ bellmanError( AlphaList prev_list,
   /* If there are negative rewards, then we must also compare each old
      vector to the new vectors. This also requires that there was no
      initial value function used (since it could have started with a
-     negative value (which we do not check for.) */
-  if (( ( gMinimumImmediateReward >= 0.0 )
+     negative value (which we do not check for.) Costs are negated when
+     solving, so non-negative costs are not non-negative rewards. */
+  if (( ( ( gMinimumImmediateReward >= 0.0 )
+          && ( gValueType == REWARD_value_type ))
         || ( gRequireNonNegativeRewards ))
       && ( param->initial_policy == NULL ))
     return ( max_diff );
-- 
2.43.0


From 4ac0eb6c2f2d15e40599b5c94ed7cbb8883c5c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 04/50] fix: weak stopping criterion ignored vectors only the
 previous solution has

A previous vector without a counterpart in the current solution went
unnoticed, so value iteration could report convergence much too early,
e.g. with -terminal_values.
---
 src/pomdp-solve.c | 49 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 4bb6179..76482a4 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -389,22 +389,13 @@ handleSaveAll( AlphaList list, PomdpSolveParams param )
 
 /**********************************************************************/
 double 
-weakBound( AlphaList cur_alpha_list,
+weakBoundOneWay( AlphaList cur_alpha_list,
 		 AlphaList prev_alpha_list,
 		 double delta ) 
 {
 /*
-  Computes the weak bound error difference between two (the current
-  and previous)  alpha lists.  Used as a form of stopping condition
-  for value iteration.
-
-  The weak bound stopping criteria compares the alpha vector
-  components directly withouit regard to the belief space or areas
-  over which the vector is dominant.  This results in a comparison at
-  the belief simplex corners, which puts a maximal bound on the
-  "intererior" difference. Given two hyperplaces over a region, the
-  maximal difference between them must occur at the boundaries of the
-  region.  
+  The largest distance from a vector of the current list to the vector
+  of the previous list closest to it.
 */
    double max_p_x, min_p_y, max_s, val;
    AlphaList p_x, p_y;
@@ -448,6 +439,40 @@ weakBound( AlphaList cur_alpha_list,
    }  /* while p_x */
 
    return ( max_p_x );
+}  /* weakBoundOneWay */
+/**********************************************************************/
+double 
+weakBound( AlphaList cur_alpha_list,
+		 AlphaList prev_alpha_list,
+		 double delta ) 
+{
+/*
+  Computes the weak bound error difference between two (the current
+  and previous)  alpha lists.  Used as a form of stopping condition
+  for value iteration.
+
+  The weak bound stopping criteria compares the alpha vector
+  components directly withouit regard to the belief space or areas
+  over which the vector is dominant.  This results in a comparison at
+  the belief simplex corners, which puts a maximal bound on the
+  "intererior" difference. Given two hyperplaces over a region, the
+  maximal difference between them must occur at the boundaries of the
+  region.  
+*/
+   double error, reverse_error;
+
+  Assert( prev_alpha_list != NULL && cur_alpha_list != NULL,
+          "Bad (NULL) parameter(s)." );
+
+   error = weakBoundOneWay( cur_alpha_list, prev_alpha_list, delta );
+
+   /* This is an optimization to exit early */
+   if ( error > delta )
+      return ( error );
+
+   reverse_error = weakBoundOneWay( prev_alpha_list, cur_alpha_list, delta );
+
+   return ( Max( error, reverse_error ));
 }  /* weakBound */
 /**********************************************************************/
 int 
-- 
2.43.0


From e2b8aa4e8c2ef0141e0c4b5b22b1002d6ac4e510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:47 +0000
Subject: [PATCH 05/50] fix: zeroes of a reward matrix did not override earlier
 reward specifications

---
 src/mdp/imm-reward.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mdp/imm-reward.c b/src/mdp/imm-reward.c
index 23a8264..cb9fbf8 100644
--- a/src/mdp/imm-reward.c
+++ b/src/mdp/imm-reward.c
@@ -320,6 +320,13 @@ void irAddToDecisionTree(Imm_Reward_List node)
     
   case ir_matrix:
     m = node->rep.matrix;
+    /* The sparse matrix does not hold the zeroes that were specified, but
+       they override earlier specifications just like other values do. */
+    if ( gProblemType == POMDP_problem_type ) { /* pomdp */
+      dtAdd(node->action, node->cur_state, WILDCARD_SPEC, WILDCARD_SPEC, 0.0);
+    } else { /* mdp */
+      dtAdd(node->action, WILDCARD_SPEC, WILDCARD_SPEC, WILDCARD_SPEC, 0.0);
+    }
     for (i=0; i < m->num_rows; i++) {
       for (j=0; j < m->row_length[i]; j++) {
 	k = m->row_start[i] + j;
-- 
2.43.0


From 89766f609add4b5b161e0df4d8044b6a3d5ffb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:47 +0000
Subject: [PATCH 06/50] fix: models without any reward specification aborted
 with a failed assertion

---
 src/mdp/decision-tree.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mdp/decision-tree.c b/src/mdp/decision-tree.c
index fc0b221..277d38e 100644
--- a/src/mdp/decision-tree.c
+++ b/src/mdp/decision-tree.c
@@ -353,6 +353,10 @@ void dtAdd(int action, int cur_state, int next_state, int obs, double val)
 double dtGet(int action, int cur_state, int next_state, int obs)
 {
   int vec[DT_TABLE_DEPTH];
+
+  /* nothing was ever added (no rewards specified), so all values are zero */
+  if (NULL == gTree) return 0.0;
+
   vec[0] = action;
   vec[1] = cur_state;
   vec[2] = next_state;
-- 
2.43.0


From b08a37df9b62b6037d51427b5089f74e75fb50b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:47 +0000
Subject: [PATCH 07/50] fix: reading a second model after deallocating the
 first used freed reward data

---
 src/mdp/decision-tree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdp/decision-tree.c b/src/mdp/decision-tree.c
index 277d38e..1d04033 100644
--- a/src/mdp/decision-tree.c
+++ b/src/mdp/decision-tree.c
@@ -369,6 +369,8 @@ void dtDeallocate(void)
 {
   dtDestroyNode(gTree);
   free(gTableSizes);
+  gTree = NULL;
+  gTableSizes = NULL;
 }
 
 void dtDebugPrint(const char* header)
-- 
2.43.0


From f02f0ce81434cea2b5abb044a1483bf33ddb7e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:50 +0000
Subject: [PATCH 08/50] fix: 'start include: *' and 'start exclude: *' wrote
 before the start of the belief state

---
 src/mdp/parser.c | 9 ++++++---
 src/mdp/parser.y | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/mdp/parser.c b/src/mdp/parser.c
index 7bad489..d594ffe 100644
--- a/src/mdp/parser.c
+++ b/src/mdp/parser.c
@@ -1264,15 +1264,18 @@ enterStartState( int i ) {
    it is an MDP.
 */
 
+  int state;
+
   if( gProblemType == MDP_problem_type )
     return;
 
   switch( curMatrixContext ) {
   case mc_start_include:
-    gInitialBelief[i] = 1.0;
-    break;
   case mc_start_exclude:
-    gInitialBelief[i] = 0.0;
+    for( state = 0; state < gNumStates; state++ )
+      if(( i == WILDCARD_SPEC ) || ( i == state ))
+	gInitialBelief[state] 
+	  = ( curMatrixContext == mc_start_include ) ? 1.0 : 0.0;
     break;
   default:
     ERR_enter("Parser<enterStartState>:", currentLineNumber, 
diff --git a/src/mdp/parser.y b/src/mdp/parser.y
index a8043a3..a33898c 100644
--- a/src/mdp/parser.y
+++ b/src/mdp/parser.y
@@ -1359,15 +1359,18 @@ enterStartState( int i ) {
    it is an MDP.
 */
 
+  int state;
+
   if( gProblemType == MDP_problem_type )
     return;
 
   switch( curMatrixContext ) {
   case mc_start_include:
-    gInitialBelief[i] = 1.0;
-    break;
   case mc_start_exclude:
-    gInitialBelief[i] = 0.0;
+    for( state = 0; state < gNumStates; state++ )
+      if(( i == WILDCARD_SPEC ) || ( i == state ))
+	gInitialBelief[state] 
+	  = ( curMatrixContext == mc_start_include ) ? 1.0 : 0.0;
     break;
   default:
     ERR_enter("Parser<enterStartState>:", currentLineNumber, 
-- 
2.43.0


From d8f80461615811db2d24d8bea1464e57ea7739bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 09/50] fix: in an MDP 'reset' did not clear the row and start
 states out of range were accepted

---
 src/mdp/parser.c | 15 +++++++++++++--
 src/mdp/parser.y | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/mdp/parser.c b/src/mdp/parser.c
index d594ffe..21ecee5 100644
--- a/src/mdp/parser.c
+++ b/src/mdp/parser.c
@@ -867,10 +867,17 @@ enterResetMatrix( ) {
 	for( j = 0; j < gNumStates; j++ )
 	  addEntryToIMatrix( IP[a], i, j, gInitialBelief[j] );
   
+  else if( gInitialState == INVALID_STATE ) 
+    /* An MDP without any start state to reset to. */
+    ERR_enter("Parser<enterMatrix>:", currentLineNumber, 
+	      BAD_RESET_USAGE, "" );
+
   else  /* It is an MDP */
     for( a = minA; a <= maxA; a++ )
       for( i = minI; i <= maxI; i++ )
-	addEntryToIMatrix( IP[a], i, gInitialState, 1.0 );
+	for( j = 0; j < gNumStates; j++ )
+	  addEntryToIMatrix( IP[a], i, j, 
+			     ( j == gInitialState ) ? 1.0 : 0.0 );
   
 
 }  /* enterResetMatrix */
@@ -1078,7 +1085,11 @@ enterMatrix( double value ) {
 	gTooManyEntries = 1;
 
       else {
-	gInitialState = value;
+	if(( value < 0 ) || ( value >= gNumStates ))
+	  ERR_enter("Parser<enterMatrix>:", currentLineNumber, 
+		    BAD_STATE_VAL, "");
+	else
+	  gInitialState = value;
 	curCol++;
       }
       break;
diff --git a/src/mdp/parser.y b/src/mdp/parser.y
index a33898c..a7dc139 100644
--- a/src/mdp/parser.y
+++ b/src/mdp/parser.y
@@ -962,10 +962,17 @@ enterResetMatrix( ) {
 	for( j = 0; j < gNumStates; j++ )
 	  addEntryToIMatrix( IP[a], i, j, gInitialBelief[j] );
   
+  else if( gInitialState == INVALID_STATE ) 
+    /* An MDP without any start state to reset to. */
+    ERR_enter("Parser<enterMatrix>:", currentLineNumber, 
+	      BAD_RESET_USAGE, "" );
+
   else  /* It is an MDP */
     for( a = minA; a <= maxA; a++ )
       for( i = minI; i <= maxI; i++ )
-	addEntryToIMatrix( IP[a], i, gInitialState, 1.0 );
+	for( j = 0; j < gNumStates; j++ )
+	  addEntryToIMatrix( IP[a], i, j, 
+			     ( j == gInitialState ) ? 1.0 : 0.0 );
   
 
 }  /* enterResetMatrix */
@@ -1173,7 +1180,11 @@ enterMatrix( double value ) {
 	gTooManyEntries = 1;
 
       else {
-	gInitialState = value;
+	if(( value < 0 ) || ( value >= gNumStates ))
+	  ERR_enter("Parser<enterMatrix>:", currentLineNumber, 
+		    BAD_STATE_VAL, "");
+	else
+	  gInitialState = value;
 	curCol++;
       }
       break;
-- 
2.43.0


From a83bd8fd1c421f43b595a27e6dcc1fa78ea5418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 10/50] fix: an MDP without start state inherited the start
 state of the model read before it

---
 src/mdp/mdp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mdp/mdp.c b/src/mdp/mdp.c
index 4cdafa1..d3c2758 100644
--- a/src/mdp/mdp.c
+++ b/src/mdp/mdp.c
@@ -244,6 +244,9 @@ allocateIntermediateMDP() {
 
   }  /* if POMDP */
 
+  /* Do not keep the start state of a model read earlier. */
+  gInitialState = INVALID_STATE;
+
   /* Regardless of whether there is an MDP or POMDP, the immediate
      rewards for action-state pairs will always exist as an expectation
      over the next states and possibly actions.  These will be computed
-- 
2.43.0


From 07632b7dd5405e0f3cb898f8364ee1afb5ae2c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 11/50] fix: belief mapping and comparison tools overflowed or
 gave up with more than about 100 beliefs

---
 src/utils.c | 89 ++++++++++++++---------------------------------------
 1 file changed, 23 insertions(+), 66 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 4730ec2..fad280d 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -46,18 +46,10 @@ UTIL_sizeIndexList( int *index_list )
 
   count = 0;
   
-  for ( i = 0; i < MAX_BEST_COUNT; i++ )
-    {
-	 if ( index_list[i] < 0 )
-	   return count;
+  for ( i = 0; index_list[i] >= 0; i++ )
+    count++;
 
-	 count++;
-    }
-  
-  fprintf( stderr, "%s %s",
-		 "Non-terminated index list.",
-		 "This seems to be some internal coding error.\n" );
-  exit( 1 );
+  return count;
 
 }
 
@@ -67,10 +59,7 @@ UTIL_sizeIndexList( int *index_list )
    This appends the 'index' parameter to the end of the list.
 
    Assumes the input list index_list is already terminated with a -1
-   and that the size of this array is MAX_BEST_COUNT.
-
-   If the list is already full, this will print an error message and
-   halt the program, since this indicates and internal coding error.
+   and that this array has room for the new element and the terminator.
 */
 void
 UTIL_appendIndexList( int *index_list, int index )
@@ -80,17 +69,7 @@ UTIL_appendIndexList( int *index_list, int index )
   /* Find end of list to insert. */
   i = 0;
   while ( index_list[i] >= 0 )
-    {
-	 if ( i >= (MAX_BEST_COUNT-2))
-	   {
-		fprintf( stderr, "%s %s",
-			    "Ran off end of index list.",
-			    "This seems to be some internal coding error.\n" );
-		exit( 1 );
-	   }
-
-	 i++;
-    }
+    i++;
 
   index_list[i] = index;
   index_list[i+1] = -1;
@@ -103,13 +82,8 @@ UTIL_printIndexList( FILE *file, int *index_list )
 {
   int i;
 
-  for ( i = 0; i < MAX_BEST_COUNT; i++ )
-    {
-	 if ( index_list[i] < 0 )
-	   return;
-	 
-	 fprintf( file, " %d", index_list[i] );
-    }
+  for ( i = 0; index_list[i] >= 0; i++ )
+    fprintf( file, " %d", index_list[i] );
   
 } /* UTIL_printIndexList */
 
@@ -124,8 +98,8 @@ UTIL_printIndexList( FILE *file, int *index_list )
   elsewhere.  The all_values is a 2D array of size NxM where N is the
   size of the belief list and M the size of the alpha list.  The best
   values is a 1D array of length N.  The best_alphas is a 2D array of
-  size NxP where P is a hard-coded limit on the list size arbitarily
-  set. It contains a list of pointers to the alphas in the list that
+  size NxP where P is the size of the alpha list plus one (for the
+  terminator). It contains a list of pointers to the alphas in the list that
   reach the maximal value (one list for each belief point).  This list
   is NULL terminated.
 */
@@ -171,14 +145,6 @@ UTIL_computeAlphaBeliefValues( AlphaList alpha_list,
 				  epsilon )) 
 	  {
 
-	    if ( best_count >= (MAX_BEST_COUNT - 1) )
-		 {
-		   fprintf( stderr, "%s %s",
-				  "Too many best vectors.",
-				  "Increase the MAX_BEST_COUNT variable in utils.h.\n" );
-		   exit( 1 );
-		 }
-	    
 	    best_alphas[b_num][best_count] = a_ptr;
 	    best_alphas[b_num][best_count+1] = NULL;
 	    best_count++;
@@ -307,10 +273,7 @@ UTIL_reportBeliefMapping( FILE *file,
     fprintf( file, "Belief[%d]:\n", b_num );
     
     fprintf( file, "  Best Alpha Indices: " );
-    for ( i = 0; i < MAX_BEST_COUNT; i++ ) {
-	 
-	 if ( alpha_best[b_num][i] == NULL )
-	   break;
+    for ( i = 0; alpha_best[b_num][i] != NULL; i++ ) {
 	 
 	 fprintf( file, "%d ", alpha_best[b_num][i]->id ) ;
     }
@@ -411,7 +374,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 	-1 sentinel list terminator, we need this list to have one more
 	element than the number of belief points.
   */
-  diff_idx_list = (int *) XMALLOC( sizeBeliefList( belief_list )+1
+  diff_idx_list = (int *) XMALLOC( (sizeBeliefList( belief_list )+1)
 							* sizeof( int ));
 
   /* The index list is assumed to contain non-negative integers, with
@@ -422,7 +385,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 
   /* Also want to keep track of those belief points where the maximal
 	differences occur (for convenience). */
-  maximal_idx_list = (int *) XMALLOC( sizeBeliefList( belief_list )+1
+  maximal_idx_list = (int *) XMALLOC( (sizeBeliefList( belief_list )+1)
 							   * sizeof( int ));
 
   maximal_idx_list[0] = -1;
@@ -435,10 +398,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 	 fprintf( file, "Belief[%d]:\n", b_num );
 
 	 fprintf( file, "  [%d] Best Alpha1 Indices: ", b_num );
-	 for ( i = 0; i < MAX_BEST_COUNT; i++ ) {
-	   
-	   if ( alpha1_best[b_num][i] == NULL )
-		break;
+	 for ( i = 0; alpha1_best[b_num][i] != NULL; i++ ) {
 	   
 	   fprintf( file, "%d ", alpha1_best[b_num][i]->id ) ;
 	 }
@@ -448,10 +408,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 			BELIEF_FILE_DECIMAL_PRECISION, alpha1_best_values[b_num] );
 
 	 fprintf( file, "  [%d] Best Alpha2 Indices: ", b_num );
-	 for ( i = 0; i < MAX_BEST_COUNT; i++ ) {
-	   
-	   if ( alpha2_best[b_num][i] == NULL )
-		break;
+	 for ( i = 0; alpha2_best[b_num][i] != NULL; i++ ) {
 	   
 	   fprintf( file, "%d ", alpha2_best[b_num][i]->id ) ;
 	 }
@@ -654,9 +611,9 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
 								* sizeof( *alpha2_best ));
 
   for ( i = 0; i < sizeBeliefList( belief_list ); i++) {
-    alpha1_best[i] = (AlphaList *) XMALLOC( MAX_BEST_COUNT
+    alpha1_best[i] = (AlphaList *) XMALLOC( (sizeAlphaList( alpha1_list )+1)
 								    * sizeof( AlphaList ) );
-    alpha2_best[i] = (AlphaList *) XMALLOC( MAX_BEST_COUNT
+    alpha2_best[i] = (AlphaList *) XMALLOC( (sizeAlphaList( alpha2_list )+1)
 								    * sizeof( AlphaList ) );
   }
 
@@ -666,9 +623,9 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
 							   * sizeof( *alpha1_non_uniquely_best));
 
   for ( i = 0; i < sizeAlphaList( alpha1_list ); i++) {
-    alpha1_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha1_uniquely_best[i] = (int *) XMALLOC( (sizeBeliefList( belief_list )+1)
 									  * sizeof( int ) );
-    alpha1_non_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha1_non_uniquely_best[i] = (int *) XMALLOC( (sizeBeliefList( belief_list )+1)
 										 * sizeof( int ) );
   }
 
@@ -678,9 +635,9 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
 							   * sizeof( *alpha2_non_uniquely_best));
 
   for ( i = 0; i < sizeAlphaList( alpha2_list ); i++) {
-    alpha2_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha2_uniquely_best[i] = (int *) XMALLOC( (sizeBeliefList( belief_list )+1)
 									  * sizeof( int ) );
-    alpha2_non_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha2_non_uniquely_best[i] = (int *) XMALLOC( (sizeBeliefList( belief_list )+1)
 										 * sizeof( int ) );
   }
 
@@ -847,7 +804,7 @@ UTIL_mapBeliefList( char *belief_filename,
 								* sizeof( *alpha_best ));
 
   for ( i = 0; i < sizeBeliefList( belief_list ); i++) {
-    alpha_best[i] = (AlphaList *) XMALLOC( MAX_BEST_COUNT
+    alpha_best[i] = (AlphaList *) XMALLOC( (sizeAlphaList( alpha_list )+1)
 								    * sizeof( AlphaList ) );
   }
 
@@ -863,9 +820,9 @@ UTIL_mapBeliefList( char *belief_filename,
 	uniquely and non_uniquely the best for a given belief state.
   */
   for ( i = 0; i < sizeAlphaList( alpha_list ); i++) {
-    alpha_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha_uniquely_best[i] = (int *) XMALLOC( (sizeBeliefList( belief_list )+1)
 									 * sizeof( int ) );
-    alpha_non_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha_non_uniquely_best[i] = (int *) XMALLOC( (sizeBeliefList( belief_list )+1)
 										* sizeof( int ) );
   }
 
-- 
2.43.0


From 71f91b19aefa8d064dbfc7989f9fca9a310d9562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 12/50] fix: an alpha file with text that is no number was read
 for ever, an empty one crashed the tools

---
 src/alpha.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 92f6708..14b3753 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1094,7 +1094,7 @@ readAlphaList( char *filename, int max_alphas )
     it will only read the first max_alphas in the file.
   */
    FILE *file;
-   int a, i;
+   int a, i, num_read;
    double *alpha;
    AlphaList list = NULL;
    
@@ -1116,22 +1116,37 @@ readAlphaList( char *filename, int max_alphas )
    
    while( max_alphas != 0 ) {
      max_alphas--;
-     if ( fscanf( file, "%d", &a ) == EOF )
+     num_read = fscanf( file, "%d", &a );
+     if ( num_read == EOF )
        break;
      alpha = newAlpha();
      
-     for ( i = 0; i < gNumStates; i++ )
-       if ( fscanf( file, "%lf", &( alpha[i] )) == EOF ) {
-         fprintf(gStdErrFile, 
-                 "** Error: Alpha vector file format incorrect.\n");
-         return ( NULL );
-       }
+     for ( i = 0; (num_read == 1) && (i < gNumStates); i++ )
+       num_read = fscanf( file, "%lf", &( alpha[i] ));
+
+     /* Either a premature end of the file or something that is not a
+        number. */
+     if ( num_read != 1 ) {
+       fprintf(gStdErrFile, 
+               "** Error: Alpha vector file format incorrect.\n");
+       XFREE( alpha );
+       destroyAlphaList( list );
+       fclose( file );
+       return ( NULL );
+     }
      
      appendAlphaList( list, alpha, a );
    }  /* while */
    
    fclose( file );
    
+   if ( sizeAlphaList( list ) == 0 ) {
+     fprintf(gStdErrFile, 
+             "** Error: Alpha vector file has no vectors.\n");
+     destroyAlphaList( list );
+     return ( NULL );
+   }
+
    return ( list );
 }  /* readAlphaList */
 /**********************************************************************/
-- 
2.43.0


From 54f9f43cf3948ffe12528270718df3df6ce0e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 13/50] fix: a belief file with text that is no number was read
 for ever

---
 src/belief.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/belief.c b/src/belief.c
index 0b70959..58cdd48 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -184,7 +184,7 @@ readBeliefList( char *filename, int max )
     it will only read the first max_beliefs in the file.
   */
    FILE *file;
-   int i;
+   int i, num_read;
    double *b;
    BeliefList list = NULL;
    
@@ -207,21 +207,29 @@ readBeliefList( char *filename, int max )
 
      b = newBelief();
      
-     for ( i = 0; i < gNumStates; i++ )
-       if ( fscanf( file, "%lf", &( b[i] )) == EOF ) {
+     for ( i = 0; i < gNumStates; i++ ) {
+       num_read = fscanf( file, "%lf", &( b[i] ));
+
+       if ( num_read != 1 ) {
+
+	    XFREE( b );
 
 	    /* We should run out of numbers to read when i == 0, since we
-		  need a number for each POMDP state in a belief.
+		  need a number for each POMDP state in a belief.  Anything
+		  that is not a number is also an error.
 	    */
-	    if ( i > 0 ) {
+	    if (( i > 0 ) || ( num_read != EOF )) {
 		 fprintf(gStdErrFile, 
 			    "** Error: Belief list file format incorrect.\n");
+		 destroyBeliefList( list );
+		 fclose( file );
 		 return ( NULL );
 	    }
 	    else 
 		 goto RBL_DONE;
 		 
        }
+     }
      
      list = appendBeliefList( list, b );
    }  /* while */
-- 
2.43.0


From 5a31313ac9c9a70d7a8707620cb5b842df3815a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 14/50] fix: malformed policy graph files were read for ever or
 wrote outside the arrays

---
 src/pg.c | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/pg.c b/src/pg.c
index 1defd8d..cf69801 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -163,19 +163,23 @@ LPG_scanf( FILE *file, int verify ) {
   LinkedPG lpg = NULL;
   int id, action;
   int *neighbor;
-  int z;
-  char int_str[MAX_MSG_LENGTH];
+  int z, num_read;
+  char int_str[32];
+  char *end_str;
   int count = 0;
 
   neighbor = (int *) XMALLOC( gNumObservations * sizeof( int ));
 
    while( 1 ) {
 
-     if( fscanf( file, "%d", &id ) == EOF )
+     num_read = fscanf( file, "%d", &id );
+     if( num_read == EOF )
        break;
 
-     if( fscanf( file, "%d", &action ) == EOF ) {
+     if(( num_read != 1 )
+	   || ( fscanf( file, "%d", &action ) != 1 )) {
 	  LPG_destroy( lpg );
+	  XFREE( neighbor );
 	  Warning( "Not enough values in the policy graph file.");
 	  return( NULL );
      }
@@ -184,15 +188,17 @@ LPG_scanf( FILE *file, int verify ) {
 	    || ( action >= gNumActions ))
 	  {
 	    LPG_destroy( lpg );
+	    XFREE( neighbor );
 	    Warning( "Bad action number.\n" );
 	    return NULL;
 	  }
 	
 	for( z = 0; z < gNumObservations; z++ ) {
 	 
-	  if ( fscanf( file, "%s", int_str) == EOF )
+	  if ( fscanf( file, "%31s", int_str) != 1 )
 	    {
 		 LPG_destroy( lpg );
+		 XFREE( neighbor );
 		 Warning("Not enough values in the policy graph file." );
 		 return NULL;
 	    }
@@ -202,7 +208,16 @@ LPG_scanf( FILE *file, int verify ) {
 	  else if ( strcmp( int_str, NO_INFO_NODE_STR ) == 0 )
 	    neighbor[z] = NO_INFO_NODE;
 	  else
-	    neighbor[z] = atoi( int_str );
+	    {
+		 neighbor[z] = (int) strtol( int_str, &end_str, 10 );
+		 if ( *end_str != '\0' )
+		   {
+			LPG_destroy( lpg );
+			XFREE( neighbor );
+			Warning( "Bad node number in the policy graph file." );
+			return NULL;
+		   }
+	    }
 	}
 
 	lpg = LPG_addNode( lpg, id, action, neighbor );
@@ -211,7 +226,10 @@ LPG_scanf( FILE *file, int verify ) {
   
   XFREE( neighbor );
 
-  Assert( count > 0, "Node pg nodes read." );
+  if ( count == 0 ) {
+    Warning( "No policy graph nodes read." );
+    return( NULL );
+  }
   
   /* DO sanity checking, but only if requested. */
   if ( verify
@@ -573,6 +591,7 @@ PG PG_convertLPGToPG( LinkedPG old_pg ) {
 */
 
   PG pg;
+  LinkedPG node;
   int z;
 
   Assert ( old_pg != NULL, "Bad parameters" );
@@ -580,6 +599,16 @@ PG PG_convertLPGToPG( LinkedPG old_pg ) {
   pg = PG_Constructor( LPG_size( old_pg ), gNumStates,
                        gNumActions, gNumObservations );
   
+  /* The node ids must be exactly the indices into the arrays. */
+  for( node = old_pg; node != NULL; node = node->next )
+    if (( node->id < 0 )
+	   || ( node->id >= pg->num_nodes )
+	   || ( LPG_findNode( node->next, node->id ) != NULL )) {
+	 Warning( "Bad node id in the policy graph." );
+	 PG_Destructor( pg );
+	 return( NULL );
+    }
+
   while( old_pg != NULL ) {
 
     pg->action[old_pg->id] = old_pg->action;
-- 
2.43.0


From c05aeed05abad951f34935a8d5004746217f5e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 15/50] fix: comparison with an unreadable belief file closed
 an unset file, and printed the maximal difference rounded

---
 src/utils.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index fad280d..73b4125 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -464,7 +464,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
   UTIL_printIndexList( file, diff_idx_list );
   fprintf( file, "\n" );
 
-  fprintf( file, "Maximal difference: %*f (%d points)\n", 
+  fprintf( file, "Maximal difference: %.*f (%d points)\n", 
 		 BELIEF_FILE_DECIMAL_PRECISION,
 		 max_diff,
 		 UTIL_sizeIndexList( maximal_idx_list ) );
@@ -571,7 +571,6 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
 
   belief_list = readBeliefList( belief_filename, 0 );
   if ( belief_list == NULL ) {
-    fclose( file );
     return;
   }
 
-- 
2.43.0


From 395aaeb16fa975d055b9aa28334ba652cb0650b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 16/50] fix: update_beliefs overflowed its word buffer on long
 lines and reused the last word on blank ones

---
 src/utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index 73b4125..115bd3a 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -1462,7 +1462,8 @@ UTIL_doBeliefUpdates()
 	 if ( UTIL_getLine( stdin, line, 1023 ) == EOF )
 	   break;
 
-	 sscanf( line, "%s", line_init );
+	 line_init[0] = '\0';
+	 sscanf( line, "%254s", line_init );
 
 	 if ( strcmp( line_init, "exit" ) == 0 )
 	   break;
-- 
2.43.0


From 29ae9c2fa6418b5c4da0536de2755199e9a53ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:37 +0000
Subject: [PATCH 17/50] fix: file names of 100 or more characters overflowed
 the buffers they were copied to

---
 src/config-file.h | 2 +-
 src/global.h      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/config-file.h b/src/config-file.h
index 567d246..6a46882 100644
--- a/src/config-file.h
+++ b/src/config-file.h
@@ -26,7 +26,7 @@
 /* Private Data */
 /*******************************************************/
 
-#define MAX_CFG_FILE_STRING_LEN     100
+#define MAX_CFG_FILE_STRING_LEN     1096
 #define MAX_CFG_FILE_PARAMS         256
 
 /* Parse sates for parsing configuration file. See CF_fscanf(). */
diff --git a/src/global.h b/src/global.h
index 064e873..af2b7af 100644
--- a/src/global.h
+++ b/src/global.h
@@ -60,11 +60,11 @@
 /* When using strings as temporary space for holding messages to be
    printed, define the string to be of this length. Shouldn't need it
    larger than this, but if so, feel free to increase this. */
-#define MAX_MSG_LENGTH               1096
+#define MAX_MSG_LENGTH               2400
 
 /* For places where we statically allocate filename character arrays,
    use this for the length. */
-#define MAX_FILENAME_LENGTH          100
+#define MAX_FILENAME_LENGTH          1200
 
 /*******************************************************************/
 /**************              MACROS                 ****************/
-- 
2.43.0


From bc9c46a7b3df271cfe7c8eb2d715c4ec816f7c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:37 +0000
Subject: [PATCH 18/50] fix: -rand_seed had no effect, the generator was seeded
 from the clock at its first use

---
 src/random.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/random.c b/src/random.c
index 1aeeb6a..058eb23 100644
--- a/src/random.c
+++ b/src/random.c
@@ -109,7 +109,7 @@ setRandomSeed( unsigned short seed[SEED_SIZE] )
 void 
 setRandomSeedFromString ( char *str ) 
 {
-  int s[SEED_SIZE];
+  int s[SEED_SIZE] = { 0, 0, 0 };
   int i;
 
   /* zzz Need to add something to check for too many and too few
@@ -121,6 +121,8 @@ setRandomSeedFromString ( char *str )
   for( i = 0; i < SEED_SIZE; i++ )
     random_seed48[i] = (short) s[i];
 
+  seeded = 1;
+
 }  /* setRandomSeedFromString  */
 /**********************************************************************/
 void 
-- 
2.43.0


From 1643603cee5ea543f5e741854799e8295630608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:37 +0000
Subject: [PATCH 19/50] fix: -time_limit printed that the program terminated,
 but it went on

---
 src/signal-handler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/signal-handler.c b/src/signal-handler.c
index 652e612..38a1c10 100644
--- a/src/signal-handler.c
+++ b/src/signal-handler.c
@@ -174,6 +174,8 @@ signalHandlerSIGVTALRM( int sig )
           "SIGVTALRM received, but no parameter context was set." );
 
   reportSIGVTALRM( gInterruptParamContext );
+
+  exit ( 0 );
    
 }  /* signalHandlerSIGVTALRM */
 /**********************************************************************/
-- 
2.43.0


From 6793e5138448c25f29eb18f9d50c65b57ddc70e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:37 +0000
Subject: [PATCH 20/50] fix: default output prefix was cut at a period in a
 directory name

---
 src/params.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/params.c b/src/params.c
index 389b460..f54a1e7 100644
--- a/src/params.c
+++ b/src/params.c
@@ -264,16 +264,18 @@ doPostOptionParseActions( PomdpSolveParams params ) {
 
     /* Start at the end and move left until we see the first
 	  "period". */
-    while (( idx > 0 ) && ( tmp_str[idx] != '.'))
+    while (( idx > 0 ) && ( tmp_str[idx] != '.') && ( tmp_str[idx] != '/'))
 	 idx--;
 
-    /* Only override if we found a period in param filename */
-    if ( idx > 0 ) {
+    /* Only override if we found a period in param filename (and not
+       in the name of some directory) */
+    if (( idx > 0 ) && ( tmp_str[idx] == '.' )) {
 
 	 /* Null terminate at the period */
 	 tmp_str[idx] = '\0';
 
-	 sprintf( opts->prefix_str, "%s-%d", tmp_str, getPid() );
+	 snprintf( opts->prefix_str, sizeof( opts->prefix_str ),
+			 "%s-%d", tmp_str, getPid() );
 	 
     } /* if we can override the default */
 
-- 
2.43.0


From 184b6052b21084f3e4918debb64d434f1f99692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 21/50] fix: configuration files lost a last line without
 newline and long words overflowed

---
 src/config-file.c | 22 ++++++++++++++--------
 src/config-file.h |  2 +-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/config-file.c b/src/config-file.c
index 50002bb..4f79b13 100644
--- a/src/config-file.c
+++ b/src/config-file.c
@@ -90,7 +90,7 @@ CF_fscanf( FILE* file )
   int file_done = 0;
   int line_done;
   int line_no = 0;
-  char ch;
+  int ch;
 
   int char_idx;
 
@@ -108,11 +108,11 @@ CF_fscanf( FILE* file )
 	 while( ! line_done )
 	   {
 
+		/* The last line need not end with a newline. */
 		if ( ( ch = fgetc( file )) == EOF )
 		  {
-		    line_done = 1;
 		    file_done = 1;
-		    break;
+		    ch = '\n';
 		  }
 
 		switch( ch )
@@ -233,12 +233,18 @@ CF_fscanf( FILE* file )
 		    switch ( state )
 			 {
 			 case PARSE_IN_ATTRIBUTE:
-			   attr[char_idx] = ch;
-			   char_idx += 1;
-			   break;
-
 			 case PARSE_IN_VALUE:
-			   value[char_idx] = ch;
+			   if ( char_idx >= (MAX_CFG_FILE_STRING_LEN - 1))
+				{
+				  cfg->error_count += 1;
+				  state = PARSE_IN_ERROR;
+				  break;
+				}
+
+			   if ( state == PARSE_IN_ATTRIBUTE )
+				attr[char_idx] = ch;
+			   else
+				value[char_idx] = ch;
 			   char_idx += 1;
 			   break;
 
diff --git a/src/config-file.h b/src/config-file.h
index 6a46882..54fd68d 100644
--- a/src/config-file.h
+++ b/src/config-file.h
@@ -26,7 +26,7 @@
 /* Private Data */
 /*******************************************************/
 
-#define MAX_CFG_FILE_STRING_LEN     1096
+#define MAX_CFG_FILE_STRING_LEN     1024
 #define MAX_CFG_FILE_PARAMS         256
 
 /* Parse sates for parsing configuration file. See CF_fscanf(). */
-- 
2.43.0


From f62c8dd5925537043ff1675999ef181c1934afdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:27 +0000
Subject: [PATCH 22/50] fix: misspelled options were silently ignored

---
 src/program-options.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/program-options.c b/src/program-options.c
index 113ad46..45b35f4 100644
--- a/src/program-options.c
+++ b/src/program-options.c
@@ -363,7 +363,7 @@ PO_endValidate( ProgramOptions opts )
   int i;
   CommandLine cmd_line;
   AssocArray assoc;
-  char err_msg[256];
+  char err_msg[MAX_OPT_STRING_LEN + 256];
 
   if (( opts == NULL )
 	 || ( opts->flag_seen == NULL )
@@ -376,7 +376,7 @@ PO_endValidate( ProgramOptions opts )
 
   for ( i = 0; i < cmd_line->num_flags; i++ )
     { 
-	 if ( ! opts->flag_seen )
+	 if ( ! opts->flag_seen[i] )
 	   {
 		sprintf( err_msg, "Unreckognized command line flag '%s'.",
 			    cmd_line->flags[i] );
@@ -388,10 +388,10 @@ PO_endValidate( ProgramOptions opts )
 
   for ( i = 0; i < assoc->cur_size; i++ )
     { 
-	 if ( ! opts->option_seen )
+	 if ( ! opts->option_seen[i] )
 	   {
 		sprintf( err_msg, "Unreckognized command line option '%s'.",
-			    cmd_line->flags[i] );
+			    assoc->keys[i] );
 		PO_handleError( opts, err_msg );
 	   }
     } /* loop over flags */
-- 
2.43.0


From 5c160b769c9d8d19b3a7d041e22c2d6f02a4f4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 23/50] fix: domination checking, documented as on by default,
 was off unless asked for

---
 src/pomdp-solve-options.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pomdp-solve-options.c b/src/pomdp-solve-options.c
index c24cf68..7da41f8 100644
--- a/src/pomdp-solve-options.c
+++ b/src/pomdp-solve-options.c
@@ -552,7 +552,8 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          POMDP_SOLVE_OPTS_ARG_DOM_CHECK_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->domination_check = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->domination_check = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'domination_check' has invalid value." );
 
-- 
2.43.0


From 41e972be8d006e72d6f65d96d883e5489e00ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 24/50] fix: grid search made a belief of NaNs for an
 observation that no state makes

---
 src/finite-grid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/finite-grid.c b/src/finite-grid.c
index 960b76e..9209196 100644
--- a/src/finite-grid.c
+++ b/src/finite-grid.c
@@ -216,6 +216,10 @@ genAllBeliefStates( PomdpSolveParams param )
 
 	 } /* for state */
 
+	 /* No state can make this observation after this action */
+	 if ( num_found == 0 )
+	   continue;
+
 	 /* Create a belief state uniform over this set of states */
 	 for( state = 0; state < gNumStates; state++ )
 	   gFGTempBelief[state] = gFGTempBelief[state] / num_found;
-- 
2.43.0


From e79d4f4d3c1dc3db21f1e03fbffa3d04f080c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:43 +0000
Subject: [PATCH 25/50] fix: grid generation went beyond the maximal number of
 points -fg_points asks for

---
 src/finite-grid.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/finite-grid.c b/src/finite-grid.c
index 9209196..a70fa25 100644
--- a/src/finite-grid.c
+++ b/src/finite-grid.c
@@ -102,7 +102,7 @@ searchAndAddBeliefStates( BeliefList belief_list,
 
   cur_size = sizeBeliefList( belief_list );
 
-  while (( cur_size <= size_limit )
+  while (( cur_size < size_limit )
 	    && ( added_belief_state )) {
 
     walk_ptr = belief_list;
@@ -140,8 +140,9 @@ searchAndAddBeliefStates( BeliefList belief_list,
 		}
 
 		/* If it is not in list, add it and then recurse */
-		if ( findBeliefState( belief_list, gFGTempBelief, 
-						  belief_epsilon ) == NULL ) {
+		if (( cur_size < size_limit )
+		    && ( findBeliefState( belief_list, gFGTempBelief, 
+							 belief_epsilon ) == NULL )) {
 		  
 		  belief_list = appendBeliefList( belief_list, gFGTempBelief );
 		  added_belief_state = 1;
@@ -160,7 +161,7 @@ searchAndAddBeliefStates( BeliefList belief_list,
 	    thus not seeing the outer loops criteria for stopping when
 	    the size gets too big, Thus, we insert this short-circuit. 
 	 */
-	 if ( cur_size > size_limit )
+	 if ( cur_size >= size_limit )
 	   break;
 
 	 walk_ptr = walk_ptr->next;
@@ -225,8 +226,10 @@ genAllBeliefStates( PomdpSolveParams param )
 	   gFGTempBelief[state] = gFGTempBelief[state] / num_found;
  
 	 /* Add the belief state to the list */
-	 if ( findBeliefState( belief_list, gFGTempBelief, 
-					   param->opts->fg_epsilon ) == NULL ) {
+	 if (( sizeBeliefList( belief_list ) 
+		  < param->opts->finite_grid_points )
+		&& ( findBeliefState( belief_list, gFGTempBelief, 
+						  param->opts->fg_epsilon ) == NULL )) {
 
 	   belief_list = appendBeliefList( belief_list, gFGTempBelief );
 	 }
-- 
2.43.0


From aa905e96aaae2714fe43a49fe8e9ac483c3d47ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 26/50] fix: policy graph after one epoch with -terminal_values
 had no links, copied vectors lost their numbers

---
 src/alpha.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/alpha.c b/src/alpha.c
index 14b3753..a9e4760 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -900,7 +900,7 @@ copyAlphaList( AlphaList dest_list,
 
     /* Copy all the fields, though the burden on the being sane values
        lies in the orginal list. */
-    temp->id = src_list->id;
+    temp->id = list->id;
     temp->obs = src_list->obs;
     temp->prev_source = src_list->prev_source;
     temp->next = src_list->next;
-- 
2.43.0


From 777397f026d1ad75d6737f4e30ebb1b3e369c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:44 +0000
Subject: [PATCH 27/50] fix: numeric options accepted any text as a number

---
 src/program-options.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/program-options.c b/src/program-options.c
index 45b35f4..91e1649 100644
--- a/src/program-options.c
+++ b/src/program-options.c
@@ -47,6 +47,8 @@
 	associated with a paricular command line option.  There is no way
 	to specify these in the configuration file.
 */
+#include <limits.h>
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -573,6 +575,8 @@ PO_getIntegerOption( ProgramOptions opts, char* opt_name,
    */
   int i;
   int str_result;
+  long long_value;
+  char *end_ptr;
   char found_str[MAX_OPT_STRING_LEN];
 
   if (( opts == NULL )
@@ -585,7 +589,13 @@ PO_getIntegerOption( ProgramOptions opts, char* opt_name,
   if ( str_result != PO_OPT_PRESENT_VALID )
     return str_result;
 
-  *ret_value = atoi( found_str );
+  /* The whole string has to be a number that fits. */
+  long_value = strtol( found_str, &end_ptr, 10 );
+  if (( end_ptr == found_str ) || ( *end_ptr != '\0' )
+	 || ( long_value < INT_MIN ) || ( long_value > INT_MAX ))
+    return PO_OPT_PRESENT_ERROR;
+
+  *ret_value = (int) long_value;
 
   /* This is the special case where we have no bounds on the value. */
   if (( min == 0 ) && ( max == 0 )) {
@@ -616,6 +626,7 @@ PO_getDoubleOption( ProgramOptions opts, char* opt_name,
    */
   int i;
   int str_result;
+  char *end_ptr;
   char found_str[MAX_OPT_STRING_LEN];
 
   if (( opts == NULL )
@@ -628,7 +639,11 @@ PO_getDoubleOption( ProgramOptions opts, char* opt_name,
   if ( str_result != PO_OPT_PRESENT_VALID )
     return str_result;
 
-  *ret_value = strtod( found_str, NULL );
+  /* The whole string has to be a number. */
+  *ret_value = strtod( found_str, &end_ptr );
+  if (( end_ptr == found_str ) || ( *end_ptr != '\0' )
+	 || isnan( *ret_value ))
+    return PO_OPT_PRESENT_ERROR;
 
   /* This is the special case where we have no bounds on the value. */
   if (( min == 0 ) && ( max == 0 )) {
-- 
2.43.0


From 021d24663792ce6cbfd30280d08c7e3694559b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 28/50] fix: the error messages for overlong command line words
 overflowed their buffer

---
 src/command-line.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/command-line.c b/src/command-line.c
index 6fd574f..a9fa209 100644
--- a/src/command-line.c
+++ b/src/command-line.c
@@ -177,7 +177,7 @@ CL_addFlag( CommandLine cmd_line, char* dashed_flag )
 
   if ( strlen( dashed_flag ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line flag '%s' is too long. %s",
+	 sprintf( err_str, "Command line flag '%.1000s' is too long. %s",
 			dashed_flag, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -218,7 +218,7 @@ CL_addArgOption( CommandLine cmd_line,
 
   if ( strlen( dashed_opt ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line flag '%s' is too long. %s",
+	 sprintf( err_str, "Command line flag '%.1000s' is too long. %s",
 			dashed_opt, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -226,7 +226,7 @@ CL_addArgOption( CommandLine cmd_line,
 
   if ( strlen( value ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line value '%s' is too long. %s",
+	 sprintf( err_str, "Command line value '%.1000s' is too long. %s",
 			value, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -275,7 +275,7 @@ CL_addArgProper( CommandLine cmd_line, char* value )
 
   if ( strlen( value ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line argument '%s' is too long. %s",
+	 sprintf( err_str, "Command line argument '%.1000s' is too long. %s",
 			value, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
-- 
2.43.0


From 56ff9535ff0bb2401455f3734fbd513226e6750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:22 +0000
Subject: [PATCH 29/50] fix: debugging dump of every belief point went to the
 standard output, even with -stdout

---
 src/common.c | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/common.c b/src/common.c
index f8d7d77..9c50f82 100644
--- a/src/common.c
+++ b/src/common.c
@@ -331,17 +331,6 @@ setBestAlphasForBeliefV( double *b, AlphaList **projection, double epsilon )
       && bestAlphaForBeliefQ( gCurAlphaVector[a], b, 
                               projection[a], epsilon );
    
-  // PBVI:
-  printf( "Belief: " );
-  showAlpha( b );
-
-  printf( "Alphas:\n" );
-  for( a = 0; a < gNumActions; a++ )
-    {
-	 printf( "a=%d : ", a );
-	 showAlpha( gCurAlphaVector[a]->alpha );
-    }
-
   return ( result );
 }  /* setBestAlphasForBeliefV */
 /**********************************************************************/
-- 
2.43.0


From f99d4c4a0e95d9abc175d6d6a2424571f0cec365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:08 +0000
Subject: [PATCH 30/50] fix: update_beliefs did not flush its answers, so a
 program talking to it through pipes waited for ever

---
 src/utils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils.c b/src/utils.c
index 115bd3a..e9f51fd 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -1458,6 +1458,10 @@ UTIL_doBeliefUpdates()
     {
 	 UTIL_displayBelief( prev_belief );
 
+	 /* Whoever sends the lines may wait for this answer, which would
+	    otherwise stay in the buffer when stdout is a pipe. */
+	 fflush( stdout );
+
 	 /* UTIL_getline() returns -1 on EOF (and other errors). */
 	 if ( UTIL_getLine( stdin, line, 1023 ) == EOF )
 	   break;
-- 
2.43.0


From 198f36a153e27fa55bc51ea8f6f2ee2828f77d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:54 +0000
Subject: [PATCH 31/50] fix: pg_eval printed an uninitialized number for the
 best node of the initial belief state

---
 src/pg-eval.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pg-eval.c b/src/pg-eval.c
index a8a0f69..54e0a64 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -409,6 +409,7 @@ PGE_main( char *pg_filename ) {
   LinkedPG lpg;
   PG pg;
   int best_node;
+  double best_value;
 
   PgEvalContext pgec;
 
@@ -430,9 +431,11 @@ PGE_main( char *pg_filename ) {
 	 printf( "No initial belief state. Cannot give a single value.\n" );
     }
     else {
+	 /* Not as an argument of printf, since it also sets 'best_node'. */
+	 best_value = PGEC_val( pgec, gInitialBelief, &best_node );
+
 	 printf( "Initial belief state value: %.2lf at node %d\n",
-		    PGEC_val( pgec, gInitialBelief, &best_node ),
-		    best_node );
+		    best_value, best_node );
 	 
     } /* if solution found */
   }
-- 
2.43.0


From 45f2703161c129b7d9978c7887f471dfc33905cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:57 +0000
Subject: [PATCH 32/50] fix: pg_eval gave the initial belief state the node
 with the highest cost when values are costs

---
 src/pg-eval.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pg-eval.c b/src/pg-eval.c
index 54e0a64..5a38a89 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -164,10 +164,12 @@ double
 PGEC_val( PgEvalContext pgec, double *b, int *best_node ) {
 /*
   Evaluates the policy graph for the given belief state byt finding
-  the node of the graph that yields the highers value
+  the node of the graph that yields the highers value (or the lowest
+  cost, when the values are costs).
 */
   double max_sum = -1.0 * HUGE_VAL;
   double cur_sum;
+  double sign = ( gValueType == COST_value_type ) ? -1.0 : 1.0;
   int cur_node, state;
 
   *best_node = -1;
@@ -179,14 +181,14 @@ PGEC_val( PgEvalContext pgec, double *b, int *best_node ) {
     for ( state = 0; state < pgec->num_states; state++ )
       cur_sum += pgec->soln[state][cur_node] * b[state];
 
-    if ( cur_sum > max_sum ) {
-      max_sum = cur_sum;
+    if ( sign * cur_sum > max_sum ) {
+      max_sum = sign * cur_sum;
       *best_node = cur_node;
     } /* if new best value */
 
   } /* for cur_node */
 
-  return ( max_sum );
+  return ( sign * max_sum );
 
 }  /* PGEC_val */
 /**********************************************************************/
-- 
2.43.0


From caebd6788c88dbab8b05bb43436f8bea380ac4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:17 +0000
Subject: [PATCH 33/50] fix: pg_eval printed values that had not converged for
 discounts near 1

---
 src/laspack-util.h |  4 ++--
 src/pg-eval.c      | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/laspack-util.h b/src/laspack-util.h
index 236b493..070bda7 100644
--- a/src/laspack-util.h
+++ b/src/laspack-util.h
@@ -18,9 +18,9 @@
 #include <laspack/vector.h>
 
 /* Arguments for the LASPACK iterative solver. */
-#define ITER_SOLVE_ACCURACY                1e-5
+#define ITER_SOLVE_ACCURACY                1e-10
 #define JACOBI_PRECON_OMEGA                0.8
-#define MAX_JACOBI_ITERATIONS              1000
+#define MAX_JACOBI_ITERATIONS              1000000
 
 extern void showVector( Vector *v );
 extern void showQMatrix( QMatrix *M );
diff --git a/src/pg-eval.c b/src/pg-eval.c
index 5a38a89..0e6ff3f 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -361,6 +361,18 @@ PGE_evaluate( PG pg, PgEvalContext pgec ) {
   V_SetAllCmp( &(pgec->x), 0.0 );
   JacobiIter( &(pgec->A), &(pgec->x), &(pgec->b), 
               MAX_JACOBI_ITERATIONS, JacobiPrecond, JACOBI_PRECON_OMEGA );
+
+  /* The iterations stop at their maximal number without an error. */
+  if (( LASResult() == LASOK )
+      && ! IsZero( l2Norm_V( &(pgec->b) ))
+      && ! ( GetLastAccuracy() <= ITER_SOLVE_ACCURACY )) {
+    Warning( "evaluatePG() The system of equations did not converge." );
+    Q_Destr( &(pgec->A) );
+    V_Destr( &(pgec->b) );
+    V_Destr( &(pgec->x) );
+    return( FALSE );
+  } /* if not converged */
+
   if ( LASResult() != LASOK)  {
     Warning( "evaluatePG() Trouble trying to solve the system of equations." );
     WriteLASErrDescr(stdout);
-- 
2.43.0


From 69b511dbe563038dd0eb69478bcfcf66ff8adfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:46 +0000
Subject: [PATCH 34/50] fix: pg_eval rejected policy graphs with no next node
 for impossible observations, which pomdp-solve writes

---
 src/pg-eval.c | 4 ++++
 src/pg.c      | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pg-eval.c b/src/pg-eval.c
index 0e6ff3f..a7b7dbd 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -249,6 +249,10 @@ PGE_setRowCoefs( PG pg, int state, int node, double *coef ) {
        overwriting them. */
     for( z = 0; z < gNumObservations; z++ ) {
 
+      /* There is no next node for an impossible observation. */
+      if ( pg->next[node][z] < 0 )
+        continue;
+
       /* This converts from the 2D naming to the 1D naming
          for the current variable under consideration in this
          row. */
diff --git a/src/pg.c b/src/pg.c
index cf69801..5e6b088 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -127,7 +127,8 @@ int
 LPG_verify( LinkedPG orig_pg ) {
 /*
    Make sure the policy graph is valid.  Need valid actions and
-   all neighbors must be defined.
+   all neighbors must be defined, except those for observations that
+   are impossible for the action of the node.
 */
   LinkedPG pg = orig_pg;
   int z;
@@ -140,6 +141,10 @@ LPG_verify( LinkedPG orig_pg ) {
     for( z = 0; z < gNumObservations; z++ )
 	 {
 
+	   if (( pg->neighbor[z] < 0 )
+		  && ( ! gObservationPossible[pg->action][z] ))
+		continue;
+
 	   if( LPG_findNode( orig_pg, pg->neighbor[z] ) == NULL )
 		return( 0 );
 
-- 
2.43.0


From 6fc2059e494bad310455c411cdec7c6af901f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:03 +0000
Subject: [PATCH 35/50] fix: pg_eval crashed on discounts of one and on policy
 graphs with bad node numbers

---
 src/pg-eval.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pg-eval.c b/src/pg-eval.c
index a7b7dbd..d03994c 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -431,6 +431,10 @@ PGE_main( char *pg_filename ) {
 
   PgEvalContext pgec;
 
+  /* Otherwise the system of equations may have no unique solution. */
+  if ( gDiscount >= 1.0 )
+    Abort( "Policy graphs can only be evaluated with a discount less than one." );
+
   lpg = LPG_read( pg_filename, TRUE );
 
   if ( lpg == NULL )
@@ -438,6 +442,9 @@ PGE_main( char *pg_filename ) {
 
   pg = PG_convertLPGToPG( lpg );
 
+  if ( pg == NULL )
+    Abort( "Problem with the nodes of the policy graph.");
+
   pgec = PGEC_Constructor();
   
   if ( PGE_evaluate( pg, pgec )) {
-- 
2.43.0


From 8ef444da7b2e524c3890f3fa9a88af1657d88d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:18 +0000
Subject: [PATCH 36/50] fix: an interrupt before the first epoch ended in a
 failed assertion

---
 src/pomdp-solve.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 76482a4..9638ac7 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -1176,7 +1176,10 @@ solvePomdp( PomdpSolveParams param )
      pointers to nowhere.  Thus, we free them in the other order to
      show this dependency explicitly. */
   destroyAlphaList( next_alpha_list );
-  destroyAlphaList( prev_alpha_list );
+
+  /* There is none when interrupted before the first epoch. */
+  if ( prev_alpha_list != NULL )
+    destroyAlphaList( prev_alpha_list );
 
   /* We were writing out a backup file after each iteration, but now
      that we are done, remove it. */
-- 
2.43.0


From 85ed8d3da169963573c04c94facbebbd8d16fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:18 +0000
Subject: [PATCH 37/50] fix: missing links of a policy graph that was read were
 written as node number -2

---
 src/pg.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pg.c b/src/pg.c
index 5e6b088..12a4966 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -509,10 +509,9 @@ PG_printf( PG pg, FILE *file  )
 	 fprintf( file, "%d %d  ", n, pg->action[n] );
 	 
 	 for( z = 0; z < pg->num_obs; z++ )
-	   if ( pg->next[n][z] != INVALID_NODE )
+	   /* Neither INVALID_NODE nor NO_INFO_NODE are node numbers. */
+	   if ( pg->next[n][z] >= 0 )
 		fprintf( file, "%d ", pg->next[n][z] );
-	   else if ( pg->next[n][z] == NO_INFO_NODE )
-		fprintf( file, "%s ", INVALID_NODE_STR );
 	   else
 		fprintf( file, "%s ", NO_INFO_NODE_STR );
 	 
-- 
2.43.0


From 5a9c7fd2bf6a108ecb503173398f7abf892689cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 38/50] fix: node numbers beyond the range of int in a policy
 graph file were taken for others

---
 src/pg.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pg.c b/src/pg.c
index 12a4966..08afe6d 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -11,6 +11,7 @@
  */
 
 #include <stdio.h>
+#include <limits.h>
 #include <math.h>
 #include <stdlib.h>
 #include <string.h>
@@ -171,6 +172,7 @@ LPG_scanf( FILE *file, int verify ) {
   int z, num_read;
   char int_str[32];
   char *end_str;
+  long number;
   int count = 0;
 
   neighbor = (int *) XMALLOC( gNumObservations * sizeof( int ));
@@ -214,8 +216,10 @@ LPG_scanf( FILE *file, int verify ) {
 	    neighbor[z] = NO_INFO_NODE;
 	  else
 	    {
-		 neighbor[z] = (int) strtol( int_str, &end_str, 10 );
-		 if ( *end_str != '\0' )
+		 number = strtol( int_str, &end_str, 10 );
+		 neighbor[z] = (int) number;
+		 if (( *end_str != '\0' )
+			|| ( number > INT_MAX ) || ( number < INT_MIN ))
 		   {
 			LPG_destroy( lpg );
 			XFREE( neighbor );
-- 
2.43.0


From 7ba326f8934610d7cfbeae31dbf840bfea1de707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 39/50] fix: -vi_variation zlz aborted unless witness points
 happened to be saved

---
 src/params.c      | 16 ++++++++++++++++
 src/zlz_speedup.c | 10 +++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/params.c b/src/params.c
index f54a1e7..d4382f9 100644
--- a/src/params.c
+++ b/src/params.c
@@ -305,6 +305,22 @@ doPostOptionParseActions( PomdpSolveParams params ) {
 
   } /* if lp_epsilon greater than general epsilon */
   
+  /* The ZLZ speedup improves the values at the witness points, and uses
+     the Bellman error. */
+  if ( opts->vi_variation == POMDP_SOLVE_OPTS_Vi_Variation_zlz ) {
+
+    if ( ! opts->use_witness_points )
+	 Warning( "ZLZ speedup requires witness points. Overriding." );
+
+    opts->use_witness_points = Boolean_true;
+
+    if ( opts->stop_criteria != POMDP_SOLVE_OPTS_Stop_Criteria_bellman )
+	 Warning( "ZLZ speedup requires Bellman stop criteria. Overriding." );
+
+    opts->stop_criteria = POMDP_SOLVE_OPTS_Stop_Criteria_bellman;
+
+  } /* if using the ZLZ speedup */
+
   /* Set the global LP precision */
   LP_setPrecision( opts->lp_epsilon );
   
diff --git a/src/zlz_speedup.c b/src/zlz_speedup.c
index 21dc31e..1953bc8 100644
--- a/src/zlz_speedup.c
+++ b/src/zlz_speedup.c
@@ -324,7 +324,7 @@ ZLZ_ViSpeedup( AlphaList U_n, double delta,
     the current Bellman residual of the new value function and the
     previous value funciton as computed by the bellmanError() routine.
   */
-  AlphaList V_n;
+  AlphaList node;
 
   /* Note that this should be checked prior to calling this routine by
      the meetStoppingCriteria() routine, but we put the check in here
@@ -335,6 +335,14 @@ ZLZ_ViSpeedup( AlphaList U_n, double delta,
 
   ZLZ_startStats( param->stat, U_n );
   startContext( param->stat, Context_Zlz_Speedup );
+
+  /* The improvement uses a witness point of each vector, but not all of
+     the methods and purging options leave one: pruning sets them. */
+  for ( node = U_n->head; node != NULL; node = node->next )
+    if ( node->witness == NULL ) {
+      normalPrune( U_n, param );
+      break;
+    } /* if there is no witness point */
   
   /* Does the improvement and will leave the final set in U_n (which
      is where the main VI loop is expecting it to be. */
-- 
2.43.0


From 3358a8f42256a2dc515d597fdd4411189d850c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 40/50] fix: being terminated while writing the backup file
 destroyed the solution saved in it

---
 src/pomdp-solve.c | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 9638ac7..7dd54e7 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -985,6 +985,41 @@ improveV( AlphaList prev_alpha_list,
 }  /* improveV */
 /**********************************************************************/
 void 
+saveBackup( AlphaList list, PomdpSolveParams param ) 
+{
+  /*
+    Writes the list to the backup file.  Being terminated while writing
+    must not cost the solution of the epoch before, so it is written
+    to another file first, which then replaces the backup file.
+  */
+  char filename[sizeof( param->backup_file ) + 4];
+  FILE *file;
+  int okay;
+
+  sprintf( filename, "%s.new", param->backup_file );
+
+  if (( file = fopen( filename, "w" )) == NULL ) {
+    fprintf( gStdErrFile, 
+		   "** Error: The backup file: %s cannot be opened.\n",
+		   filename );
+    return;
+  }
+
+  writeAlphaList( file, list );
+
+  okay = ! ferror( file );
+
+  if (( fclose( file ) != 0 ) || ! okay 
+	 || ( rename( filename, param->backup_file ) != 0 )) {
+    fprintf( gStdErrFile, 
+		   "** Error: The backup file: %s cannot be written.\n",
+		   param->backup_file );
+    removeFile( filename );
+  }
+
+}  /* saveBackup */
+/**********************************************************************/
+void 
 solvePomdp( PomdpSolveParams param ) 
 {
   /*
@@ -1151,7 +1186,7 @@ solvePomdp( PomdpSolveParams param )
        abnormal termination will leave the lastest epoch's
        solution.  This will allow you to start it with the last
        solution and not have to re-run it. */
-    saveAlphaList( next_alpha_list, param->backup_file ); 
+    saveBackup( next_alpha_list, param );
 
     /* If we are using a variation on value iteration, then we may
        need to adjust some parameters (epsilon) after an epoch.
-- 
2.43.0


From eb39b1c08ab2e8bee3e0cf9c8c3f0350e4ba1d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 41/50] fix: a time limit running out while the program was
 exiting crashed it

---
 src/pomdp-solve.c    | 3 +++
 src/signal-handler.c | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 7dd54e7..06890fd 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -228,6 +228,9 @@ cleanUpPomdpSolve( PomdpSolveParams param )
   /* Deallocate the POMDP problem parameters. */
   cleanUpPomdp();
 
+  /* The time limit may still run out, but must not use these. */
+  setInterruptParamContext( NULL );
+
   /* Close the reporting file. */
   fclose( param->report_file );
   
diff --git a/src/signal-handler.c b/src/signal-handler.c
index 38a1c10..0ebf1cf 100644
--- a/src/signal-handler.c
+++ b/src/signal-handler.c
@@ -170,8 +170,9 @@ signalHandlerSIGVTALRM( int sig )
      outputs stuff that indicates it aborted.
   */
 
-  Assert( gInterruptParamContext != NULL,
-          "SIGVTALRM received, but no parameter context was set." );
+  /* There is none any more when all that is left to do is to exit. */
+  if ( gInterruptParamContext == NULL )
+    return;
 
   reportSIGVTALRM( gInterruptParamContext );
 
-- 
2.43.0


From 4a5ab81cf037dcf4be17cea0e49272c60c2faa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 42/50] fix: numbers beyond the range of int in alpha and
 policy graph files were taken for others

---
 src/alpha.c |  7 +++++--
 src/pg.c    | 14 +++++++++-----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index a9e4760..d11dcef 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1094,7 +1094,8 @@ readAlphaList( char *filename, int max_alphas )
     it will only read the first max_alphas in the file.
   */
    FILE *file;
-   int a, i, num_read;
+   int i, num_read;
+   long a;
    double *alpha;
    AlphaList list = NULL;
    
@@ -1116,9 +1117,11 @@ readAlphaList( char *filename, int max_alphas )
    
    while( max_alphas != 0 ) {
      max_alphas--;
-     num_read = fscanf( file, "%d", &a );
+     num_read = fscanf( file, "%ld", &a );
      if ( num_read == EOF )
        break;
+     if (( num_read == 1 ) && ( a != (int) a ))
+       num_read = 0;
      alpha = newAlpha();
      
      for ( i = 0; (num_read == 1) && (i < gNumStates); i++ )
diff --git a/src/pg.c b/src/pg.c
index 08afe6d..c5fcfd9 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -172,26 +172,30 @@ LPG_scanf( FILE *file, int verify ) {
   int z, num_read;
   char int_str[32];
   char *end_str;
-  long number;
+  long number = 0;
   int count = 0;
 
   neighbor = (int *) XMALLOC( gNumObservations * sizeof( int ));
 
    while( 1 ) {
 
-     num_read = fscanf( file, "%d", &id );
+     num_read = fscanf( file, "%ld", &number );
      if( num_read == EOF )
        break;
 
-     if(( num_read != 1 )
-	   || ( fscanf( file, "%d", &action ) != 1 )) {
+     id = (int) number;
+
+     if(( num_read != 1 ) || ( number != id )
+	   || ( fscanf( file, "%ld", &number ) != 1 )) {
 	  LPG_destroy( lpg );
 	  XFREE( neighbor );
 	  Warning( "Not enough values in the policy graph file.");
 	  return( NULL );
      }
 
-	if (( action < 0 ) 
+	action = (int) number;
+
+	if (( action < 0 ) || ( number != action )
 	    || ( action >= gNumActions ))
 	  {
 	    LPG_destroy( lpg );
-- 
2.43.0


From 0c9fa9f30a6996aaa01a07297661d97d79039d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 43/50] fix: infinite and undefined numbers in alpha and belief
 files crashed the programs

---
 src/alpha.c  | 5 ++++-
 src/belief.c | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/alpha.c b/src/alpha.c
index d11dcef..0ded08d 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1124,8 +1124,11 @@ readAlphaList( char *filename, int max_alphas )
        num_read = 0;
      alpha = newAlpha();
      
-     for ( i = 0; (num_read == 1) && (i < gNumStates); i++ )
+     for ( i = 0; (num_read == 1) && (i < gNumStates); i++ ) {
        num_read = fscanf( file, "%lf", &( alpha[i] ));
+       if (( num_read == 1 ) && ( ! isfinite( alpha[i] )))
+         num_read = 0;
+     }
 
      /* Either a premature end of the file or something that is not a
         number. */
diff --git a/src/belief.c b/src/belief.c
index 58cdd48..dbf1d27 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -210,6 +210,9 @@ readBeliefList( char *filename, int max )
      for ( i = 0; i < gNumStates; i++ ) {
        num_read = fscanf( file, "%lf", &( b[i] ));
 
+       if (( num_read == 1 ) && ( ! isfinite( b[i] )))
+         num_read = 0;
+
        if ( num_read != 1 ) {
 
 	    XFREE( b );
-- 
2.43.0


From 39c6116b008c25bd924154007f370881f4e47b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 44/50] fix: rewards too large for a number were read as
 infinite and crashed the solver

---
 src/mdp/imm-reward.c | 7 +++++++
 src/mdp/parse_err.c  | 3 ++-
 src/mdp/parse_err.h  | 4 +++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mdp/imm-reward.c b/src/mdp/imm-reward.c
index cb9fbf8..560e36e 100644
--- a/src/mdp/imm-reward.c
+++ b/src/mdp/imm-reward.c
@@ -83,10 +83,13 @@ that was specified in the file.  */
 
 #include "mdp-common.h"
 #include "mdp.h"
+#include "parse_err.h"
 #include "sparse-matrix.h"
 #include "imm-reward.h"
 #include "decision-tree.h"
 
+extern long currentLineNumber;  /* in the parser */
+
 /* Set USE_DECISION_TREE to 1 to use the decision-tree library to speed
    up getImmediateReward() queries. */
 #define USE_DECISION_TREE (1)
@@ -260,6 +263,10 @@ enterImmReward( int cur_state, int next_state, int obs,
 
   assert( gCurImmRewardNode != NULL );
 
+  if( ! isfinite( value ))
+    ERR_enter( "Parser<enterImmReward>", currentLineNumber,
+	       BAD_REWARD_VAL, "" );
+
   switch( gCurImmRewardNode->type ) {
   case ir_value:
     gCurImmRewardNode->rep.value = value;
diff --git a/src/mdp/parse_err.c b/src/mdp/parse_err.c
index 09aefdc..090cd38 100644
--- a/src/mdp/parse_err.c
+++ b/src/mdp/parse_err.c
@@ -56,7 +56,8 @@ static char *Err_Strings[NBR_ERRORS] = {
 	ERROR_MSSG_25,
 	ERROR_MSSG_26,
 	ERROR_MSSG_27,
-	ERROR_MSSG_28
+	ERROR_MSSG_28,
+	ERROR_MSSG_29
 	};
 
 /* pointer to the linked list of errors */
diff --git a/src/mdp/parse_err.h b/src/mdp/parse_err.h
index 308ff4f..78bc979 100644
--- a/src/mdp/parse_err.h
+++ b/src/mdp/parse_err.h
@@ -37,7 +37,7 @@ needed for the "pomdp_err.c" module.
 				*/
 
 /* Currently defined error messages */
-#define NBR_ERRORS	29
+#define NBR_ERRORS	30
 
 #define ERROR_MSSG_0	"Illegal character @ in input."
 #define ERROR_MSSG_1	"Bad value for discount factor. Valid range is 0 to 1."
@@ -68,6 +68,7 @@ needed for the "pomdp_err.c" module.
 #define ERROR_MSSG_26   "Observations not valid in MDP, or missing observations in POMDP"
 #define ERROR_MSSG_27   "This type of starting state specification is not valid for an MDP."
 #define ERROR_MSSG_28   "Not a valid reward syntax for this problem type."
+#define ERROR_MSSG_29   "Bad reward. Too large for a number."
 
 /* Corresponding values for each error type */
 #define ILL_CHAR_ERR                 0
@@ -99,6 +100,7 @@ needed for the "pomdp_err.c" module.
 #define OBS_IN_MDP_PROBLEM          26
 #define BAD_START_STATE_TYPE        27
 #define BAD_REWARD_SYNTAX           28
+#define BAD_REWARD_VAL              29
 
 /* Miscellaneous messages */
 #define OUT_OF_RANGE_MSSG "** ERROR ** ERR_enter: errorid of %d out of range\n"
-- 
2.43.0


From d89fc6058e49ce0b5d66d07423771c5a51b2e826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 45/50] fix: integers too large for an int were read as other
 numbers

---
 src/mdp/scanner.c | 46 ++++++++++++++++++++++++++--------------------
 src/mdp/scanner.l |  6 ++++++
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/mdp/scanner.c b/src/mdp/scanner.c
index d950c90..df03fc3 100644
--- a/src/mdp/scanner.c
+++ b/src/mdp/scanner.c
@@ -470,6 +470,7 @@ char *yytext;
    generator "LEX".  
 */
 
+#include <limits.h>
 #include <stdio.h>
 #include <ctype.h>
 #include <stdlib.h>
@@ -595,9 +596,9 @@ CheckReserved() {
 
 }  /* CheckReserved */
 /**********************************************************************/
-#line 599 "scanner.c"
+#line 600 "scanner.c"
 /************************* Character Classes  *******************************/
-#line 601 "scanner.c"
+#line 602 "scanner.c"
 
 #define INITIAL 0
 
@@ -814,9 +815,9 @@ YY_DECL
 		}
 
 	{
-#line 156 "scanner.l"
+#line 157 "scanner.l"
 
-#line 820 "scanner.c"
+#line 821 "scanner.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -875,15 +876,20 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 157 "scanner.l"
+#line 158 "scanner.l"
 {
+                                          /* A number may be larger than an int. */
+                                          if( strtol( yytext, NULL, 10 ) > INT_MAX ) {
+                                             FloatToYylval();
+                                             return (FLOATTOK);
+                                          }
                                           IntToYylval();
                                           return (INTTOK);  /* Integer Literal */
 					}   
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 162 "scanner.l"
+#line 168 "scanner.l"
 {
                                           FloatToYylval();
                                           return (FLOATTOK);  /* Floating Point Literal */
@@ -891,7 +897,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 167 "scanner.l"
+#line 173 "scanner.l"
 {
                                   int tok_val;
                                   tok_val = CheckReserved();
@@ -905,63 +911,63 @@ YY_RULE_SETUP
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 178 "scanner.l"
+#line 184 "scanner.l"
 ;   /* Comment: No action */
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 181 "scanner.l"
+#line 187 "scanner.l"
 {         
                                    return (ASTERICKTOK);
                                 }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 184 "scanner.l"
+#line 190 "scanner.l"
 {         
                                    return (MINUSTOK);
                                 }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 187 "scanner.l"
+#line 193 "scanner.l"
 {         
                                     return (PLUSTOK);
                                 }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 190 "scanner.l"
+#line 196 "scanner.l"
 {         
                                     return (COLONTOK);
                                 }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 194 "scanner.l"
+#line 200 "scanner.l"
 ; /* Spacedelimiter: No action */ 
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 196 "scanner.l"
+#line 202 "scanner.l"
 ; /* Tab delimiter: No action */
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 198 "scanner.l"
+#line 204 "scanner.l"
 ; /* Carriage return: No action */
 	YY_BREAK
 case 12:
 /* rule 12 can match eol */
 YY_RULE_SETUP
-#line 200 "scanner.l"
+#line 206 "scanner.l"
 {  
                                     currentLineNumber++; /* Newline delimiter */
                                 }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 205 "scanner.l"
+#line 211 "scanner.l"
 { 
                                   
                                   ERR_enter("Scanner<yylex>",currentLineNumber,
@@ -970,10 +976,10 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 218 "scanner.l"
+#line 224 "scanner.l"
 ECHO;
 	YY_BREAK
-#line 977 "scanner.c"
+#line 983 "scanner.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -1978,4 +1984,4 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 218 "scanner.l"
+#line 224 "scanner.l"
diff --git a/src/mdp/scanner.l b/src/mdp/scanner.l
index b4e83fe..895d754 100644
--- a/src/mdp/scanner.l
+++ b/src/mdp/scanner.l
@@ -15,6 +15,7 @@
    generator "LEX".  
 */
 
+#include <limits.h>
 #include <stdio.h>
 #include <ctype.h>
 #include <stdlib.h>
@@ -155,6 +156,11 @@ UnsignedReal ({Digit}+({RealOpt1}|{RealOpt2}))
 
 %%
 {IntLiteral} 			{
+                                          /* A number may be larger than an int. */
+                                          if( strtol( yytext, NULL, 10 ) > INT_MAX ) {
+                                             FloatToYylval();
+                                             return (FLOATTOK);
+                                          }
                                           IntToYylval();
                                           return (INTTOK);  /* Integer Literal */
 					}   
-- 
2.43.0


From fb4ae5fe46c5c8d513c5c6d9ab1ea675085a47ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 46/50] fix: pruning could keep the same vector twice because
 of the LP's limited precision

---
 src/parsimonious.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parsimonious.c b/src/parsimonious.c
index 8aa950c..d3db67d 100644
--- a/src/parsimonious.c
+++ b/src/parsimonious.c
@@ -422,11 +422,16 @@ normalPrune( AlphaList orig_list, PomdpSolveParams param )
       best_node = removebestVectorNode( orig_list, gTempBelief,
                                         param->alpha_epsilon );
 
-      /* zzz Should this be addUniqueAlphaList()?  What if the list
-         sent in has duplictaes?  Then the precision issue becomes
-         important. This is theoretically not necessary since two
-         equivalent vectors should not give a region point, but unless
-         we can really ensure this , we should add the check here. */
+      /* The list sent in may have duplicates.  Two equivalent vectors
+         should not give a region point, but they can because of the
+         limited precision of the LP. */
+      if ( queryAlphaList( new_alpha_list, best_node->alpha,
+                           param->alpha_epsilon )) {
+        destroyAlphaNode( best_node );
+        num_pruned++;
+        continue;
+      }
+
       appendNodeToAlphaList( new_alpha_list, best_node );
 
       if ( param->use_witness_points )
-- 
2.43.0


From b4841ef592d498b03e94f12dc15cc67304855fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 47/50] fix: the zlz speedup could go on for ever because of
 the LP's limited precision

---
 src/zlz_speedup.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/zlz_speedup.c b/src/zlz_speedup.c
index 1953bc8..6b63a8a 100644
--- a/src/zlz_speedup.c
+++ b/src/zlz_speedup.c
@@ -153,8 +153,9 @@ ZLZ_pruneSpecial( AlphaList list, PomdpSolveParams param )
      Only considers pruning vectors that have their 'marked' field set
      to FALSE. 
   */
-  AlphaList cur_node;
-  int num_pruned = 0;
+  AlphaList cur_node, dummy;
+  double value;
+  int i, keep, num_pruned = 0;
   
   Assert( list != NULL, "List is NULL." );
 
@@ -163,10 +164,23 @@ ZLZ_pruneSpecial( AlphaList list, PomdpSolveParams param )
     /* Remove a node from the original list. */
     cur_node = extractUnmarkedVector( list );
 
+    keep = findRegionPoint( cur_node->alpha, list, 
+                            gTempBelief, NULL, param );
+
+    /* The point comes from an LP of limited precision, so make sure
+       the node really is better there: kept when it is not, the
+       improvement goes on from it without end. */
+    if ( keep ) {
+      value = 0.0;
+      for ( i = 0; i < gNumStates; i++ )
+        value += cur_node->alpha[i] * gTempBelief[i];
+      keep = ( value > bestVectorValue( list, gTempBelief, &dummy,
+                                        SMALLEST_PRECISION ));
+    } /* if there is a point to check */
+
     /* If this node gives us a witness point, then we will leave it in
        the list. */
-    if ( findRegionPoint( cur_node->alpha, list, 
-                          gTempBelief, NULL, param )) {
+    if ( keep ) {
 
       /* Mark it and add it back to list. */
       cur_node->mark = TRUE;
-- 
2.43.0


From 91d9e929225add846c40715e8279025febd9073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:09 +0000
Subject: [PATCH 48/50] fix: pg_eval ignored transitions of probability below
 1e-8, however much they were worth

---
 src/pg-eval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pg-eval.h b/src/pg-eval.h
index 17afa48..2a45d34 100644
--- a/src/pg-eval.h
+++ b/src/pg-eval.h
@@ -26,7 +26,7 @@
 /* When checking for zero entries in sparse equation solving of policy
    graph equations, use this value as the check against zero
    tolerance. */
-#define DEFAULT_PG_CONTEXT_EPSILON    1e-8
+#define DEFAULT_PG_CONTEXT_EPSILON    1e-30
 
 typedef struct PgEvalContextStruct *PgEvalContext;
 struct PgEvalContextStruct {
-- 
2.43.0


From 49f918566319e5d59e60465feb58d15ad5916b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:03 +0000
Subject: [PATCH 49/50] fix: sorting a list twice could number its vectors in
 another order than the files already written

---
 src/alpha.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/alpha.c b/src/alpha.c
index 0ded08d..f7795ee 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1743,7 +1743,17 @@ sortAlphaList( AlphaList list )
   Assert( list->length == 0,
           "List length not what it should be." );
   
-  quicksortAlphaList( array, 0, num_vectors-1 );
+  /* A list that is in order stays as it is: with values that are
+     equal up to the comparison's precision there can be more than one
+     order, and vectors already saved or numbered must keep theirs. */
+  for ( i = 1; i < num_vectors; i++ )
+    if ( isLexicographicallyBetterAlpha( array[i-1]->alpha,
+                                         array[i]->alpha,
+                                         1e-15 ))
+      break;
+
+  if ( i < num_vectors )
+    quicksortAlphaList( array, 0, num_vectors-1 );
   
   for ( i = 0; i < num_vectors; i++ )
     enqueueAlphaNode( list, array[i] );
-- 
2.43.0


From 87652cbe3a4f91afee21a8a3f8fa36520306d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:51 +0000
Subject: [PATCH 50/50] fix: lp_solve wrote beyond its memory for linear
 programs of more than 10000 rows

---
 src/lp-solve/solve.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lp-solve/solve.c b/src/lp-solve/solve.c
index bf0b769..93fbdc5 100644
--- a/src/lp-solve/solve.c
+++ b/src/lp-solve/solve.c
@@ -174,7 +174,7 @@ static void condensecol(lprec *lp,
   
   elnr = lp->eta_col_end[lp->eta_size];
 
-  if(elnr + lp->rows + 2 > lp->eta_alloc) /* maximum local growth of Eta */
+  while(elnr + lp->rows + 2 > lp->eta_alloc) /* maximum local growth of Eta */
     resize_eta(lp);
 
   for(i = 0; i <= lp->rows; i++)
@@ -256,6 +256,10 @@ static void minoriteration(lprec *lp,
   
   varin = colnr + lp->rows;
   elnr = lp->eta_col_end[lp->eta_size];
+
+  while(elnr + lp->rows + 2 > lp->eta_alloc) /* maximum local growth of Eta */
+    resize_eta(lp);
+
   wk = elnr;
   lp->eta_size++;
 
-- 
2.43.0

