/* Reads model files with the project's parser and prints what it understood.
   usage: mdpdump FILE [FILE2 ...]   (several: one after the other in one process) */
#include <stdio.h>
#include <stdlib.h>
#include "mdp-common.h"
#include "mdp.h"
#include "sparse-matrix.h"
#include "imm-reward.h"

int main( int argc, char **argv ) {
  int k, a, i, j, o, n;
  extern int gInitialState;

  for( k = 1; k < argc; k++ ) {
    if( ! readMDP( argv[k] )) {
      printf( "\nREJECTED\n" );
      return 3;
    }
    n = gNumObservations > 0 ? gNumObservations : 1;
    printf( "\nMODEL %s %.17g %s %d %d %d\n", gProblemType == POMDP_problem_type ? "POMDP" : "MDP", gDiscount,
            gValueType == REWARD_value_type ? "reward" : "cost", gNumStates, gNumActions, gNumObservations );
    printf( "START" );
    if( gProblemType == POMDP_problem_type )
      for( i = 0; i < gNumStates; i++ ) printf( " %.17g", gInitialBelief[i] );
    else
      printf( " %d", gInitialState );
    printf( "\n" );
    for( a = 0; a < gNumActions; a++ )
      for( i = 0; i < gNumStates; i++ ) {
        printf( "T" );
        for( j = 0; j < gNumStates; j++ ) printf( " %.17g", getEntryMatrix( P[a], i, j ));
        printf( "\n" );
      }
    if( gProblemType == POMDP_problem_type )
      for( a = 0; a < gNumActions; a++ )
        for( i = 0; i < gNumStates; i++ ) {
          printf( "O" );
          for( o = 0; o < gNumObservations; o++ ) printf( " %.17g", getEntryMatrix( R[a], i, o ));
          printf( "\n" );
        }
    for( a = 0; a < gNumActions; a++ ) {
      printf( "Q" );
      for( i = 0; i < gNumStates; i++ ) printf( " %.17g", getEntryMatrix( Q, a, i ));
      printf( "\n" );
    }
    for( a = 0; a < gNumActions; a++ )
      for( i = 0; i < gNumStates; i++ ) {
        printf( "R" );
        for( j = 0; j < gNumStates; j++ )
          for( o = 0; o < n; o++ ) printf( " %.17g", getImmediateReward( a, i, j, o ));
        printf( "\n" );
      }
    printf( "END\n" );
    deallocateMDP();
  }
  return 0;
}
